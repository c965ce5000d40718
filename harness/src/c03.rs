use crate::{craft::*, fix::*, sym};
use didcomm::algorithms::*;
use didcomm::*;
use serde_json::Value;

/// envelope kinds: 0..3 anonymous with each cipher, 3 authenticated, 4 authenticated + signed inside, 5/6 reference-made anonymous / authenticated
struct Env { msg: Message, j: Jwe, d: Dids, s: Secs }
fn world(t: Kt, n: u32) -> (Who, Who) {
    let a = Who::new("did:x:a").ka("k", t, 1).auth("s", Kt::Ed, 2);
    let mut b = Who::new("did:x:b").ka("1", t, 3);
    if n > 1 { b = b.ka("2", t, 4); }
    (a, b)
}
fn env(k: u32, t: Kt, n: u32, held: usize, text: &str) -> Option<Env> {
    let (a, b) = world(t, n);
    let d = Dids::new(vec![a.doc(), b.doc()]);
    let sa = Secs::new(a.secrets());
    let m = Message::build("i".into(), "t".into(), Value::String(text.into())).finalize();
    let kids: Vec<(&str, u8)> = b.ka.iter().map(|k| (k.0.as_str(), k.2)).collect();
    let p = if k < 5 {
        let o = PackEncryptedOptions { protect_sender: false, forward: false, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: anon_alg(k) };
        match run(m.pack_encrypted("did:x:b", if k >= 3 { Some("did:x:a") } else { None }, if k == 4 { Some("did:x:a") } else { None }, &d, &sa, &o)) { Ok(x) => x.0, Err(_) => { sym::fail(1); return None; } }
    } else {
        let pt = run(m.pack_plaintext(&d)).unwrap_or_default();
        let e = Enc::new(t, if k == 5 { Ce::Xc } else { Ce::Cbc }, &kids);
        (if k == 6 { e.from("did:x:a#k", 1) } else { e }).pack(pt.as_bytes())
    };
    let j = match Jwe::read(&p) { Some(j) => j, None => { sym::fail(2); return None; } };
    let s = Secs::new(vec![secret(&b.ka[held].0, t, b.ka[held].2)]);
    Some(Env { msg: m, j, d, s })
}
fn judge(e: &Env, j: &Jwe, same: bool) {
    match run(Message::unpack(&j.json(), &e.d, &e.s, &UnpackOptions::default())) {
        Ok((m, _)) => { sym::check(same, 10); sym::check(m == e.msg, 11); sym::reach(1); }
        Err(x) => { sym::obs(kcode(x.kind())); sym::check(!same, 12); sym::reach(2); }
    }
}
fn dec(s: &str) -> Vec<u8> { unb64(s) }

/// every byte of one decoded field replaced by any value, at the original length or one shorter/longer
pub fn fields() {
    let k = sym::choice(7);
    let t = kt(sym::choice(2));
    let n = 1 + sym::choice(2);
    let held = if n == 2 { 1 } else { 0 };
    let e = match env(k, t, n, held, "body") { Some(e) => e, None => return };
    let f = sym::choice(4);
    let orig = dec(match f { 0 => &e.j.iv, 1 => &e.j.ciphertext, 2 => &e.j.tag, _ => &e.j.recipients[held].1 });
    let len = match sym::choice(4) { 0 => orig.len(), 1 => orig.len() - 1, 2 => orig.len() + 1, _ => 0 };
    let new = sym::vec(len);
    let same = new == orig;
    let txt = b64(&new);
    let mut j = e.j.clone();
    match f { 0 => j.iv = txt, 1 => j.ciphertext = txt, 2 => j.tag = txt, _ => j.recipients[held].1 = txt }
    judge(&e, &j, same);
    sym::reach(10 + f);
}

/// a window of the text of a field replaced by any characters: what decodes to the same bytes may pass, nothing else
pub fn text() {
    let k = sym::choice(5);
    let e = match env(k, Kt::X, 1, 0, "b") { Some(e) => e, None => return };
    let f = sym::choice(5);
    let src: String = match f { 0 => e.j.iv.clone(), 1 => e.j.ciphertext.clone(), 2 => e.j.tag.clone(), 3 => e.j.recipients[0].1.clone(), _ => e.j.protected.clone() };
    let w = sym::by_tier(1, 2) as usize;
    let stride = if f == 4 { sym::by_tier(3, 1) } else { sym::by_tier(2, 1) } as usize;
    let np = (src.len() - w) / stride + 1;
    let mut pos = sym::choice(np as u32 + 1) as usize * stride;
    if pos + w > src.len() { pos = src.len() - w; }
    let new = sym::ident(w);
    let mut v = String::from(&src[..pos]); v.push_str(&new); v.push_str(&src[pos + w..]);
    let text_same = v == src;
    let mut j = e.j.clone();
    match f { 0 => j.iv = v, 1 => j.ciphertext = v, 2 => j.tag = v, 3 => j.recipients[0].1 = v, _ => j.protected = v }
    judge(&e, &j, text_same);
    sym::reach(20 + f);
}

/// parts of two envelopes of the same sender and recipient mixed in every way
pub fn mixed() {
    let k = sym::choice(5);
    let e1 = match env(k, Kt::X, 1, 0, "one") { Some(e) => e, None => return };
    let e2 = match env(if sym::flip() { k } else { 3 }, Kt::X, 1, 0, "two") { Some(e) => e, None => return };
    let m = sym::choice(32);
    let (a, b) = (&e1.j, &e2.j);
    let p = |i: u32| if m & (1 << i) != 0 { b } else { a };
    let j = Jwe { protected: p(0).protected.clone(), recipients: p(1).recipients.clone(), iv: p(2).iv.clone(), ciphertext: p(3).ciphertext.clone(), tag: p(4).tag.clone() };
    match run(Message::unpack(&j.json(), &e1.d, &e1.s, &UnpackOptions::default())) {
        Ok((x, _)) => { sym::check((j == *a && x == e1.msg) || (j == *b && x == e2.msg), 13); sym::reach(1); }
        Err(x) => { sym::obs(kcode(x.kind())); sym::check(j != *a && j != *b, 14); sym::reach(2); }
    }
}

/// the inner envelope of a sender-protected message tampered by the holder of nothing: any byte of the outer parts
pub fn nested() {
    let (a, b) = world(Kt::X, 1);
    let d = Dids::new(vec![a.doc(), b.doc()]);
    let m = Message::build("i".into(), "t".into(), Value::String("b".into())).finalize();
    let o = PackEncryptedOptions { protect_sender: true, forward: false, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: anon_alg(sym::choice(3)) };
    let p = match run(m.pack_encrypted("did:x:b", Some("did:x:a"), None, &d, &Secs::new(a.secrets()), &o)) { Ok(x) => x.0, Err(_) => { sym::fail(1); return; } };
    let j0 = match Jwe::read(&p) { Some(j) => j, None => { sym::fail(2); return; } };
    let e = Env { msg: m, j: j0, d, s: Secs::new(b.secrets()) };
    let f = sym::choice(4);
    let mut j = e.j.clone();
    let fld = match f { 0 => &mut j.iv, 1 => &mut j.ciphertext, 2 => &mut j.tag, _ => &mut j.recipients[0].1 };
    let orig = dec(fld);
    // a window of any bytes at any chosen offset
    let w = 8.min(orig.len());
    let np = orig.len() / w;
    let q = sym::choice(if f == 1 { np.min(sym::by_tier(6, 200)) as u32 } else { np as u32 }) as usize;
    let mut v = orig.clone();
    let nb = sym::vec(w);
    v[q * w..q * w + w].copy_from_slice(&nb);
    let same = v == orig;
    *fld = b64(&v);
    judge(&e, &j, same);
}
