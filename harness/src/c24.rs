use crate::{craft::*, fix::*, sym};
use didcomm::secrets::*;
use didcomm::*;
use serde_json::Value;

/// wallet that lists what it holds in its own order
struct W { s: Secs, rev: bool }
#[async_trait::async_trait(?Send)]
impl SecretsResolver for W {
    async fn get_secret(&self, id: &str) -> didcomm::error::Result<Option<Secret>> { self.s.get_secret(id).await }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> didcomm::error::Result<Vec<&'a str>> { let mut v = self.s.find_secrets(ids).await?; if self.rev { v.reverse(); } Ok(v) }
}
const F: [&str; 4] = ["1", "2", "3", "4"];
fn parties(t: Kt, n: usize) -> (Who, Who) { let a = Who::new("did:x:a").ka("k", t, 1).auth("s", Kt::Ed, 2); let mut b = Who::new("did:x:b"); for i in 0..n { b = b.ka(F[i], t, 10 + i as u8); } (a, b) }
/// envelope kind: 0..3 anonymous with each cipher, 3 authenticated, 4 anonymous signed; made by the library, or by the reference (5 anonymous, 6 authenticated)
fn make(k: u32, t: Kt, n: usize, m: &Message) -> Option<(Jwe, Dids)> {
    let (a, b) = parties(t, n);
    let d = Dids::new(vec![a.doc(), b.doc()]);
    let p = if k < 5 {
        let o = PackEncryptedOptions { enc_alg_anon: anon_alg(k), ..opts(false) };
        match run(m.pack_encrypted("did:x:b", if k == 3 { Some("did:x:a") } else { None }, if k == 4 { Some("did:x:a") } else { None }, &d, &Secs::new(a.secrets()), &o)) { Ok(x) => x.0, Err(_) => { sym::fail(1); return None; } }
    } else {
        let kids: Vec<(&str, u8)> = b.ka.iter().map(|k| (k.0.as_str(), k.2)).collect();
        let e = Enc::new(t, if k == 5 { Ce::Gcm } else { Ce::Cbc }, &kids);
        (if k == 6 { e.from("did:x:a#k", 1) } else { e }).pack(run(m.pack_plaintext(&d)).unwrap_or_default().as_bytes())
    };
    match Jwe::read(&p) { Some(j) => Some((j, d)), None => { sym::fail(2); None } }
}
/// held secrets that do not open the envelope: of the other curve, another key of the same curve, a signing key; every subset and order, honest entries
pub fn secrets() {
    let n = 2 + sym::choice(sym::by_tier(1, 2)) as usize;
    let k = sym::choice(7);
    let t = kt(sym::choice(2));
    let m = Message::build("i".into(), "t".into(), Value::String(sym::ident(1))).finalize();
    let (j, d) = match make(k, t, n, &m) { Some(x) => x, None => return };
    let (_, b) = parties(t, n);
    let w: Vec<u32> = (0..n).map(|_| sym::choice(5)).collect();
    let mut v = vec![];
    for (i, k) in b.ka.iter().enumerate() {
        match w[i] { 0 => (), 1 => v.push(secret(&k.0, k.1, k.2)), 2 => v.push(secret(&k.0, if t == Kt::X { Kt::P } else { Kt::X }, k.2)), 3 => v.push(secret(&k.0, k.1, 90)), _ => v.push(secret(&k.0, if sym::flip() { Kt::Ed } else { Kt::K }, k.2)) }
    }
    let held: Vec<bool> = w.iter().map(|x| *x > 0).collect();
    let bad: Vec<bool> = w.iter().map(|x| *x > 1).collect();
    judge(&j, &d, &b, &held, &bad, &m, v, false);
}
/// every subset of held secrets in every listing order, every subset of spoilt recipient entries
pub fn subsets() {
    let n = 1 + sym::choice(3) as usize;
    let k = sym::choice(7);
    let t = kt(sym::choice(2));
    let m = Message::build("i".into(), "t".into(), Value::String(sym::ident(1))).finalize();
    let (j, d) = match make(k, t, n, &m) { Some(x) => x, None => return };
    let (_, b) = parties(t, n);
    let held: Vec<bool> = (0..n).map(|_| sym::flip()).collect();
    let bad: Vec<bool> = (0..n).map(|_| sym::flip()).collect();
    let mut j = j;
    for i in 0..n { if bad[i] { let mut e = unb64(&j.recipients[i].1); let l = e.len(); e[l / 2] ^= 1; j.recipients[i].1 = b64(&e); } }
    judge(&j, &d, &b, &held, &bad, &m, b.secrets().into_iter().enumerate().filter(|(i, _)| held[*i]).map(|x| x.1).collect(), true);
}
fn judge(j: &Jwe, d: &Dids, b: &Who, held: &[bool], bad: &[bool], m: &Message, secs: Vec<Secret>, spoilt: bool) {
    let all = sym::flip();
    let n = held.len();
    let w = W { s: Secs::new(secs), rev: n > 1 && sym::flip() };
    let mut order: Vec<usize> = (0..n).filter(|i| held[*i]).collect();
    if w.rev { order.reverse(); }
    let r = run(Message::unpack(&j.json(), d, &w, &UnpackOptions { expect_decrypt_by_all_keys: all, unwrap_re_wrapping_forward: false }));
    let opens: Vec<bool> = order.iter().map(|i| !bad[*i]).collect();
    match r {
        Ok((x, md)) => {
            sym::check(x == *m, 11);
            sym::check(if all { !opens.is_empty() && opens.iter().all(|x| *x) } else { opens.iter().any(|x| *x) }, 12);
            sym::check(md.encrypted && md.encrypted_to_kids == Some(b.ka.iter().map(|k| k.0.clone()).collect()), 13);
            sym::reach(1);
        }
        Err(e) => {
            sym::obs(kcode(e.kind()));
            // a wallet whose first listed key opens the envelope is enough unless all were asked for
            sym::check(if all { opens.is_empty() || opens.iter().any(|x| !*x) } else { opens.first() != Some(&true) }, 14);
            if opens.is_empty() { sym::check(kcode(e.kind()) == 3, 15); } else if spoilt { sym::check(kcode(e.kind()) == 4, 16); }
            sym::reach(2);
        }
    }
}
/// one recipient entry with any bytes, of another recipient, of another envelope, cut or extended
pub fn entries() {
    let n = 2;
    let k = sym::choice(7);
    let t = Kt::X;
    let m = Message::build("i".into(), "t".into(), Value::String("x".into())).finalize();
    let (mut j, d) = match make(k, t, n, &m) { Some(x) => x, None => return };
    let (_, b) = parties(t, n);
    let i = sym::choice(2) as usize;
    let o = unb64(&j.recipients[i].1);
    let mut bad = vec![false, false];
    match sym::choice(6) {
        0 => { let st = sym::by_tier(8, 1); let q = (sym::choice(o.len() as u32 / st) * st) as usize; let mut e = o.clone(); e[q] = sym::byte(); bad[i] = e[q] != o[q]; j.recipients[i].1 = b64(&e); }
        1 => { let e = b64(&o[..sym::choice(o.len() as u32 / 8) as usize * 8]); j.recipients[i].1 = e; bad[i] = true; }
        2 => { let mut e = o.clone(); e.extend_from_slice(&sym::bytes::<8>()); j.recipients[i].1 = b64(&e); bad[i] = true; }
        3 => { let x = j.recipients[0].1.clone(); j.recipients[0].1 = j.recipients[1].1.clone(); j.recipients[1].1 = x; bad = vec![true, true]; }
        4 => { let x = j.recipients[1 - i].1.clone(); j.recipients[i].1 = x; bad[i] = true; }
        _ => { let (j2, _) = match make(k, t, n, &m) { Some(x) => x, None => return }; j.recipients[i].1 = j2.recipients[i].1.clone(); bad[i] = true; }
    }
    let held: Vec<bool> = match sym::choice(3) { 0 => vec![true, true], 1 => vec![true, false], _ => vec![false, true] };
    judge(&j, &d, &b, &held, &bad, &m, b.secrets().into_iter().enumerate().filter(|(i, _)| held[*i]).map(|x| x.1).collect(), true);
}
/// both layers of a sender-protecting envelope have to open with all keys
pub fn layers() {
    let t = Kt::X;
    let m = Message::build("i".into(), "t".into(), Value::String(sym::ident(1))).finalize();
    let (a, b) = parties(t, 2);
    let d = Dids::new(vec![a.doc(), b.doc()]);
    let kids: Vec<(&str, u8)> = b.ka.iter().map(|k| (k.0.as_str(), k.2)).collect();
    let pt = run(m.pack_plaintext(&d)).unwrap_or_default();
    let mut inner = Enc::new(t, Ce::Cbc, &kids).from("did:x:a#k", 1).parts(pt.as_bytes());
    let bad_in: Vec<bool> = (0..2).map(|_| sym::flip()).collect();
    let bad_out: Vec<bool> = (0..2).map(|_| sym::flip()).collect();
    let spoil = |j: &mut Jwe, b: &[bool]| for i in 0..2 { if b[i] { let mut e = unb64(&j.recipients[i].1); e[0] ^= 0x80; j.recipients[i].1 = b64(&e); } };
    spoil(&mut inner, &bad_in);
    let mut outer = Enc::new(t, Ce::Xc, &kids).parts(inner.json().as_bytes());
    spoil(&mut outer, &bad_out);
    let held: Vec<bool> = match sym::choice(3) { 0 => vec![true, true], 1 => vec![true, false], _ => vec![false, true] };
    let bad: Vec<bool> = (0..2).map(|i| bad_in[i] || bad_out[i]).collect();
    let all = sym::flip();
    let s = Secs::new(b.secrets().into_iter().enumerate().filter(|(i, _)| held[*i]).map(|x| x.1).collect());
    let first = (0..2).find(|i| held[*i]).unwrap_or(0);
    match run(Message::unpack(&outer.json(), &d, &s, &UnpackOptions { expect_decrypt_by_all_keys: all, unwrap_re_wrapping_forward: sym::flip() })) {
        Ok((x, _)) => { sym::check(x == m, 21); sym::check(if all { (0..2).all(|i| !held[i] || !bad[i]) } else { (0..2).any(|i| held[i] && !bad_in[i]) && (0..2).any(|i| held[i] && !bad_out[i]) }, 22); sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(if all { (0..2).any(|i| held[i] && bad[i]) } else { bad[first] }, 23); sym::reach(2); }
    }
}
