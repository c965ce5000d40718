use crate::{craft::*, fix::*, gen, sym};
use didcomm::did::*;
use didcomm::secrets::Secret;
use didcomm::*;

fn unsup(id: &str) -> VerificationMethod { VerificationMethod { id: id.into(), type_: VerificationMethodType::Other, controller: "c".into(), verification_material: VerificationMaterial::Base58 { public_key_base58: "z".into() } } }
#[derive(Clone, Copy, PartialEq, Eq)]
enum Kk { X, P, Uns, Missing }
fn kk(i: u32) -> Kk { match i { 0 => Kk::X, 1 => Kk::P, 2 => Kk::Uns, _ => Kk::Missing } }

/// sender keys: up to 2 (thorough 3) keyAgreement entries of any kind, each with its secret in the wallet or not, an
/// authentication-only key with a secret, the sender given as DID or with a symbolic key fragment
pub fn sender() {
    let n = 1 + sym::choice(sym::by_tier(2, 3)) as usize;
    let names = ["k", "j", "z"];
    let mut doc = DIDDoc { id: "did:x:a".into(), key_agreement: vec![], authentication: vec!["did:x:a#s".into()], verification_method: vec![vm("did:x:a#s", Kt::X, 40), vm("did:x:a#o", Kt::X, 41)], service: vec![] };
    let mut w: Vec<Secret> = vec![secret("did:x:a#s", Kt::X, 40), secret("did:x:a#o", Kt::X, 41)];
    let mut keys: Vec<(String, Kk, u8, bool)> = vec![];
    for i in 0..n {
        let id = format_id("did:x:a", names[i]); let k = kk(sym::choice(4)); let seed = 10 + i as u8; let held = sym::flip();
        doc.key_agreement.push(id.clone());
        match k { Kk::X => doc.verification_method.push(vm(&id, Kt::X, seed)), Kk::P => doc.verification_method.push(vm(&id, Kt::P, seed)), Kk::Uns => doc.verification_method.push(unsup(&id)), Kk::Missing => {} }
        if held { w.push(secret(&id, if k == Kk::P { Kt::P } else { Kt::X }, seed)); }
        keys.push((id, k, seed, held));
    }
    let rt = sym::choice(3); // recipient holds X, P, both
    let mut b = Who::new("did:x:b");
    if rt != 1 { b = b.ka("1", Kt::X, 3); }
    if rt != 0 { b = b.ka("2", Kt::P, 4); }
    let d = Dids::new(vec![doc, b.doc()]); let s = Secs::new(w);
    let named = sym::flip();
    let from = if named { let c = sym::ident(1); ["did:x:a#", c.as_str()].concat() } else { "did:x:a".to_string() };
    let o = PackEncryptedOptions { protect_sender: sym::flip(), ..opts(false) };
    let m = gen::message(0, "", 0);
    let r = run(m.pack_encrypted("did:x:b", Some(&from), None, &d, &s, &o));
    let sel: Vec<&(String, Kk, u8, bool)> = keys.iter().filter(|k| !named || k.0 == from).collect();
    let held: Vec<&&(String, Kk, u8, bool)> = sel.iter().filter(|k| k.3).collect();
    let fits = |k: Kk| k == Kk::X && rt != 1 || k == Kk::P && rt != 0;
    match r {
        Ok((p, md)) => {
            let f = match &md.from_kid { Some(f) => f.clone(), None => { sym::fail(1); return; } };
            let k = match held.iter().find(|k| k.0 == f) { Some(k) => k, None => { sym::fail(2); return; } };
            sym::check(fits(k.1), 3);
            let t = if k.1 == Kk::P { Kt::P } else { Kt::X };
            let mut j = match Jwe::read(&p) { Some(j) => j, None => { sym::fail(4); return; } };
            let (rk, rs) = if t == Kt::X { ("did:x:b#1", 3) } else { ("did:x:b#2", 4) };
            if o.protect_sender {
                let inner = open(&j, rk, t, rs, None).and_then(|b| String::from_utf8(b).ok()).and_then(|t| Jwe::read(&t));
                j = match inner { Some(i) => i, None => { sym::fail(5); return; } };
            }
            // the key used is the key reported: header, and the public key that opens it
            let h = j.header().unwrap_or_default();
            sym::check(h.get("skid").and_then(|x| x.as_str()) == Some(f.as_str()), 6);
            sym::check(h.get("apu").and_then(|x| x.as_str()).map(unb64) == Some(f.clone().into_bytes()), 7);
            sym::check(open(&j, rk, t, rs, Some(pk(t, k.2))).is_some(), 8);
            sym::check(open(&j, rk, t, rs, Some(pk(t, 40))).is_none(), 9);
            sym::reach(1);
            if named { sym::reach(2); }
        }
        Err(e) => {
            let k = kcode(e.kind()); sym::obs(k);
            if sel.is_empty() { sym::check(k == 2, 20); sym::reach(3); }
            else if held.is_empty() { sym::check(k == 3, 21); sym::reach(4); }
            else if held.iter().any(|k| k.1 == Kk::Missing) { sym::reach(5); }
            else { sym::check(!held.iter().any(|k| fits(k.1)), 22); sym::check(k == 7, 23); sym::reach(6); }
        }
    }
}

/// a key id that is a symbolic text of up to 2 characters, of the same or another DID
pub fn sender_id() {
    let a = Who::new("did:x:a").ka("k", Kt::X, 1).ka("kk", Kt::X, 5).auth("s", Kt::X, 2);
    let b = Who::new("did:x:b").ka("1", Kt::X, 3);
    let d = Dids::new(vec![a.doc(), b.doc()]);
    let mut w = a.secrets(); w.extend(b.secrets());
    let s = Secs::new(w);
    let n = sym::choice(3) as usize; let c = sym::utf8(n);
    let from = ["did:x:", if sym::flip() { "a" } else { "b" }, "#", c.as_str()].concat();
    let m = gen::message(0, "", 0);
    match run(m.pack_encrypted("did:x:b", Some(&from), None, &d, &s, &opts(false))) {
        Ok((p, md)) => {
            sym::check(from == "did:x:a#k" || from == "did:x:a#kk" || from == "did:x:b#1", 10);
            sym::check(md.from_kid.as_deref() == Some(from.as_str()), 11);
            let j = match Jwe::read(&p) { Some(j) => j, None => { sym::fail(12); return; } };
            let seed = if from == "did:x:a#k" { 1 } else if from == "did:x:a#kk" { 5 } else { 3 };
            sym::check(open(&j, "did:x:b#1", Kt::X, 3, Some(pk(Kt::X, seed))).is_some(), 13);
            sym::reach(1);
        }
        Err(e) => { let k = kcode(e.kind()); sym::obs(k); sym::check(!(from == "did:x:a#k" || from == "did:x:a#kk" || from == "did:x:b#1"), 14); sym::check(k == 2, 15); sym::reach(2); }
    }
}

/// signer keys: up to 2 (3) authentication entries of every type, each held or not, a keyAgreement-only key with a secret
fn sign_go(enc: bool) {
    let n = 1 + sym::choice(sym::by_tier(2, 3)) as usize;
    let names = ["k", "j", "z"];
    let mut a = Who::new("did:x:a").ka("x", Kt::X, 40);
    let mut w: Vec<Secret> = vec![secret("did:x:a#x", Kt::X, 40), secret("did:x:a#e", Kt::Ed, 41)];
    let mut keys: Vec<(String, Kt, u8, bool)> = vec![];
    for i in 0..n {
        let t = kt(sym::choice(4)); let seed = 10 + i as u8; let held = sym::flip(); let id = format_id("did:x:a", names[i]);
        a = a.auth(names[i], t, seed);
        if held { w.push(secret(&id, t, seed)); }
        keys.push((id, t, seed, held));
    }
    let b = Who::new("did:x:b").ka("1", Kt::X, 3);
    let mut doc = a.doc(); doc.verification_method.push(vm("did:x:a#e", Kt::Ed, 41));
    let d = Dids::new(vec![doc, b.doc()]); let s = Secs::new(w);
    let named = sym::flip();
    let by = if named { let c = sym::ident(1); ["did:x:a#", c.as_str()].concat() } else { "did:x:a".to_string() };
    let m = gen::message(1, "", 0);
    let r = if enc {
        run(m.pack_encrypted("did:x:b", None, Some(&by), &d, &s, &opts(false))).map(|(p, md)| {
            let t = Jwe::read(&p).and_then(|j| open(&j, "did:x:b#1", Kt::X, 3, None)).and_then(|b| String::from_utf8(b).ok()).unwrap_or_default();
            (t, md.sign_by_kid.unwrap_or_default())
        })
    } else { run(m.pack_signed(&by, &d, &s)).map(|(p, md)| (p, md.sign_by_kid)) };
    let sel: Vec<&(String, Kt, u8, bool)> = keys.iter().filter(|k| !named || k.0 == by).collect();
    match r {
        Ok((p, f)) => {
            let k = match sel.iter().find(|k| k.3 && k.0 == f) { Some(k) => k, None => { sym::fail(30); return; } };
            sym::check(k.1 != Kt::X, 31);
            let j = match Jws::read(&p) { Some(j) => j, None => { sym::fail(32); return; } };
            sym::check(j.sigs.len() == 1 && j.sigs[0].0 == f, 33);
            let (alg, st) = sig_alg(k.1);
            let inp = [j.sigs[0].1.as_str(), ".", j.payload.as_str()].concat();
            sym::check(raw_verify(k.1, k.2, st, inp.as_bytes(), &unb64(&j.sigs[0].2)), 34);
            let h: serde_json::Value = serde_json::from_slice(&unb64(&j.sigs[0].1)).unwrap_or_default();
            sym::check(h.get("alg").and_then(|x| x.as_str()) == Some(alg), 35);
            sym::check(unb64(&j.payload) == run(m.pack_plaintext(&d)).unwrap_or_default().into_bytes(), 36);
            sym::reach(1);
        }
        Err(e) => {
            let k = kcode(e.kind()); sym::obs(k);
            if sel.is_empty() { sym::check(k == 2, 40); sym::reach(2); }
            else if !sel.iter().any(|k| k.3) { sym::check(k == 3, 41); sym::reach(3); }
            else { sym::check(sel.iter().any(|k| k.3 && k.1 == Kt::X), 42); sym::check(k == 8, 43); sym::reach(4); }
        }
    }
}
pub fn signer() { sign_go(false) }
pub fn signer_enc() { sign_go(true) }
/// 8 keys whose ids resemble each other, all or one of them (or all but one) held; named by id or by DID
fn near_keys() -> (gen::Near, Vec<usize>, Option<usize>, String) {
    let n = gen::Near::new("did:x:a");
    let l = n.ids.len();
    let one = n.any();
    let held: Vec<usize> = match sym::choice(3) { 0 => (0..l).collect(), 1 => vec![one], _ => (0..l).filter(|i| *i != one).collect() };
    let named = if sym::flip() { Some(match sym::choice(3) { 0 => one, 1 => (one + 1) % l, _ => (one + l - 1) % l }) } else { None };
    if let Some(i) = named { if !n.own(i) { sym::assume(false); } }
    let s = match named { Some(i) => n.ids[i].clone(), None => "did:x:a".to_string() };
    (n, held, named, s)
}
fn near_ok(n: &gen::Near, held: &[usize], named: Option<usize>) -> Vec<usize> { held.iter().filter(|i| n.listed.contains(&n.ids[**i]) && named.map(|k| k == **i).unwrap_or(true)).cloned().collect() }
/// sender keys whose ids resemble each other
pub fn near_sender() {
    let (n, held, named, from) = near_keys();
    let b = Who::new("did:x:b").ka("1", Kt::X, 3);
    let d = Dids::new(vec![n.doc(true, Kt::X), b.doc()]);
    let s = Secs::new(held.iter().map(|i| n.secret(Kt::X, *i)).collect());
    let ok = near_ok(&n, &held, named);
    match run(gen::message(0, "", 0).pack_encrypted("did:x:b", Some(&from), None, &d, &s, &opts(false))) {
        Ok((p, md)) => {
            let i = match ok.iter().find(|i| Some(&n.ids[**i]) == md.from_kid.as_ref()) { Some(i) => *i, None => { sym::fail(50); return; } };
            let j = match Jwe::read(&p) { Some(j) => j, None => { sym::fail(51); return; } };
            sym::check(open(&j, "did:x:b#1", Kt::X, 3, Some(pk(Kt::X, 10 + i as u8))).is_some(), 52);
            sym::reach(if named.is_some() { 1 } else { 2 });
        }
        Err(e) => { let k = kcode(e.kind()); sym::obs(k); sym::check(ok.is_empty(), 53); sym::check(k == if named.map(|i| !n.listed.contains(&n.ids[i])).unwrap_or(false) { 2 } else { 3 }, 54); sym::reach(3); }
    }
}
/// signer keys whose ids resemble each other
pub fn near_signer() {
    let (n, held, named, by) = near_keys();
    let t = [Kt::Ed, Kt::P, Kt::K][n.listed.len() % 3];
    let d = Dids::new(vec![n.doc(false, t)]);
    let s = Secs::new(held.iter().map(|i| n.secret(t, *i)).collect());
    let ok = near_ok(&n, &held, named);
    match run(gen::message(0, "", 0).pack_signed(&by, &d, &s)) {
        Ok((p, md)) => {
            let i = match ok.iter().find(|i| n.ids[**i] == md.sign_by_kid) { Some(i) => *i, None => { sym::fail(60); return; } };
            let j = match Jws::read(&p) { Some(j) => j, None => { sym::fail(61); return; } };
            sym::check(j.sigs.len() == 1 && j.sigs[0].0 == n.ids[i], 62);
            let inp = [j.sigs[0].1.as_str(), ".", j.payload.as_str()].concat();
            sym::check(raw_verify(t, 10 + i as u8, sig_alg(t).1, inp.as_bytes(), &unb64(&j.sigs[0].2)), 63);
            sym::reach(if named.is_some() { 1 } else { 2 });
        }
        Err(e) => { let k = kcode(e.kind()); sym::obs(k); sym::check(ok.is_empty(), 64); sym::check(k == if named.map(|i| !n.listed.contains(&n.ids[i])).unwrap_or(false) { 2 } else { 3 }, 65); sym::reach(3); }
    }
}
