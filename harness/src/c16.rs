use crate::{craft::*, fix::*, gen, sym};
use didcomm::did::*;
use didcomm::error::ErrorKind;
use didcomm::*;
use serde_json::Value;

/// a DID of the form did:method:id (any non-fragment text with at least that structure)
fn did(s: &str) -> bool { s.as_bytes().starts_with(b"did:") && s.as_bytes()[4..].contains(&b':') && !s.as_bytes().contains(&b'#') }
/// read a token with the reference verification
fn token(j: &str, t: Kt, seed: u8) -> Option<(Value, Value)> {
    let p: Vec<&str> = j.split('.').collect();
    if p.len() != 3 { return None; }
    let inp = [p[0], ".", p[1]].concat();
    if !raw_verify(t, seed, sig_alg(t).1, inp.as_bytes(), &unb64(p[2])) { return None; }
    Some((serde_json::from_slice(&unb64(p[0])).ok()?, serde_json::from_slice(&unb64(p[1])).ok()?))
}
fn near(base: &str) -> String {
    let n = base.len();
    let k = sym::choice(2 * n as u32 + 4) as usize;
    let c = sym::ident(1);
    // one more character anywhere
    if k >= n + 3 { let k = k - n - 3; return [&base[..k], c.as_str(), &base[k..]].concat(); }
    if k < n { [&base[..k], c.as_str(), &base[k + 1..]].concat() } else if k == n { [base, c.as_str()].concat() } else if k == n + 1 { [base, c.as_str(), "x"].concat() } else { base[..sym::choice(n as u32 + 1) as usize].to_string() }
}
/// which issuer and subject texts are accepted
pub fn claims() {
    let which = sym::choice(3);
    let iss = if which == 0 { near("did:x:a") } else { "did:x:a".to_string() };
    let sub = match which { 1 => near("did:x:b"), 2 => near("did:x:a"), _ => "did:x:b".to_string() };
    let t = match sym::choice(3) { 0 => Kt::Ed, 1 => Kt::P, _ => Kt::K };
    let kid = [iss.as_str(), "#1"].concat();
    let doc = DIDDoc { id: iss.clone(), key_agreement: vec![], authentication: vec![kid.clone()], verification_method: vec![vm(&kid, t, 2)], service: vec![] };
    let d = Dids::new(vec![doc]); let s = Secs::new(vec![secret(&kid, t, 2)]);
    // every optional claim or none
    let f = FromPrior::build(iss.clone(), sub.clone());
    let f = if sym::flip() { f.aud("did:x:c".into()).exp(9).nbf(1).iat(2).jti("j".into()) } else { f }.finalize();
    let good = did(&iss) && did(&sub) && iss.as_bytes() != sub.as_bytes();
    let given = sym::flip();
    match run(f.pack(if given { Some(kid.as_str()) } else { None }, &d, &s)) {
        Ok((j, k)) => {
            sym::check(good, 1); sym::check(k == kid, 2);
            match token(&j, t, 2) { Some((h, p)) => { sym::check(h["kid"].as_str() == Some(kid.as_str()) && h["alg"].as_str() == Some(sig_alg(t).0) && h["typ"].as_str() == Some("JWT"), 3); sym::check(p["iss"].as_str() == Some(iss.as_str()) && p["sub"].as_str() == Some(sub.as_str()), 4); } None => sym::fail(5) }
            match run(FromPrior::unpack(&j, &d)) { Ok((f2, k2)) => sym::check(f2 == f && k2 == kid, 6), Err(e) => { sym::obs(kcode(e.kind())); sym::fail(7); } }
            sym::reach(1);
        }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(!good, 8); sym::check(e.kind() == ErrorKind::Malformed, 9); sym::reach(2); }
    }
}
/// which issuer keys are used: order, kinds of keys, held secrets, and how the key is named
pub fn issuer() {
    let ts = [Kt::Ed, Kt::P, Kt::K, Kt::X];
    let n = sym::by_tier(2, 3);
    let mut w = Who::new("did:x:a");
    let mut used: Vec<u32> = vec![];
    for i in 0..n { let t = sym::choice(4); let f = ["1", "2", "3"][i as usize]; w = w.auth(f, ts[t as usize], 20 + i as u8); used.push(t); }
    w = w.ka("9", Kt::X, 30);
    let o = Who::new("did:x:o").auth("1", Kt::Ed, 40);
    let held = sym::choice(1 << n);
    let mut sec = vec![secret("did:x:a#9", Kt::X, 30), secret("did:x:o#1", Kt::Ed, 40), secret("did:x:a#7", Kt::Ed, 41)];
    for i in 0..n { if held >> i & 1 == 1 { let a = &w.auth[i as usize]; sec.insert(0, secret(&a.0, a.1, a.2)); } }
    let d = Dids::new(vec![w.doc(), o.doc()]); let s = Secs::new(sec);
    let f = FromPrior::build("did:x:a".into(), "did:x:b".into()).finalize();
    let name = match sym::choice(9) { 0 => None, 1 => Some("did:x:a#1"), 2 => Some("did:x:a#2"), 3 => Some("did:x:a#9"), 4 => Some("did:x:a#7"), 5 => Some("did:x:o#1"), 6 => Some("did:x:a"), 7 => Some("#1"), _ => Some("") };
    let pick: Option<usize> = match name { None => (0..n as usize).find(|i| held >> i & 1 == 1), Some("did:x:a#1") => if held & 1 == 1 { Some(0) } else { None }, Some("did:x:a#2") => if held & 2 == 2 { Some(1) } else { None }, _ => None };
    match run(f.pack(name, &d, &s)) {
        Ok((j, k)) => match pick {
            None => sym::fail(10),
            Some(i) => {
                let a = &w.auth[i];
                sym::check(a.1 != Kt::X, 11); sym::check(k == a.0, 12);
                if a.1 == Kt::X { return; }
                match token(&j, a.1, a.2) { Some((h, _)) => sym::check(h["kid"].as_str() == Some(a.0.as_str()) && h["alg"].as_str() == Some(sig_alg(a.1).0), 13), None => sym::fail(14) }
                match run(FromPrior::unpack(&j, &d)) { Ok((f2, k2)) => sym::check(f2 == f && k2 == a.0, 15), Err(e) => { sym::obs(kcode(e.kind())); sym::fail(16); } }
                sym::reach(if name.is_none() { 1 } else { 2 });
            }
        },
        Err(e) => {
            sym::obs(kcode(e.kind()));
            let want = match (name, pick) { (_, Some(i)) if w.auth[i].1 == Kt::X => ErrorKind::Unsupported, (_, Some(_)) => { sym::fail(17); return; } (None, None) | (Some("did:x:a#1"), None) | (Some("did:x:a#2"), None) => ErrorKind::SecretNotFound, (Some("did:x:a#9"), _) | (Some("did:x:a#7"), _) => ErrorKind::DIDUrlNotFound, _ => ErrorKind::IllegalArgument };
            sym::check(e.kind() == want, 18); sym::reach(3);
        }
    }
}
/// the key name given is any text near a held key's name
pub fn issuer_name() {
    let a = Who::new("did:x:a").auth("1", Kt::Ed, 2).ka("2", Kt::X, 3); let o = Who::new("did:x:o").auth("1", Kt::Ed, 4);
    let name = near("did:x:a#1");
    // the document of the issuer may itself list a key of that name, held as well, whatever DID the name is under
    if sym::flip() {
        let mut doc = a.doc(); doc.authentication.insert(0, name.clone()); doc.verification_method.insert(0, vm(&name, Kt::Ed, 7));
        let mut sec = a.secrets(); sec.insert(0, secret(&name, Kt::Ed, 7));
        let (d, s) = (Dids::new(vec![doc, o.doc()]), Secs::new(sec));
        let f = FromPrior::build("did:x:a".into(), "did:x:b".into()).finalize();
        let good = name.as_bytes().starts_with(b"did:x:a#");
        match run(f.pack(Some(&name), &d, &s)) { Ok((j, k)) => { sym::check(good && k == name, 23); sym::check(token(&j, Kt::Ed, 7).is_some(), 24); sym::reach(3); } Err(e) => { sym::check(!good, 25); sym::check(e.kind() == ErrorKind::IllegalArgument, 26); sym::reach(4); } }
        return;
    }
    let d = Dids::new(vec![a.doc(), o.doc()]); let mut sec = a.secrets(); sec.append(&mut o.secrets()); let s = Secs::new(sec);
    let f = FromPrior::build("did:x:a".into(), "did:x:b".into()).finalize();
    let good = name.as_bytes() == b"did:x:a#1";
    match run(f.pack(Some(&name), &d, &s)) { Ok((j, k)) => { sym::check(good && k == "did:x:a#1", 20); sym::check(token(&j, Kt::Ed, 2).is_some(), 21); sym::reach(1); } Err(e) => { sym::obs(kcode(e.kind())); sym::check(!good, 22); sym::reach(2); } }
}
/// every optional field present or absent with any text / number: the token says exactly that
pub fn fields() {
    let mut b = FromPrior::build("did:x:a".into(), "did:x:b".into());
    let mask = if sym::tier() > 0 { sym::choice(32) } else { [0, 1, 2, 4, 8, 16, 31, 13][sym::choice(8) as usize] };
    let s = if mask & 17 != 0 { sym::utf8(sym::choice(sym::by_tier(3, 4)) as usize) } else { String::new() }; let n = if mask & 14 != 0 { gen::num() } else { 0 };
    if mask & 1 != 0 { b = b.aud(s.clone()); } if mask & 2 != 0 { b = b.exp(n); } if mask & 4 != 0 { b = b.nbf(n ^ 1); } if mask & 8 != 0 { b = b.iat(n ^ 2); } if mask & 16 != 0 { b = b.jti(["j", s.as_str()].concat()); }
    let f = b.finalize();
    sym::check(f.iss == "did:x:a" && f.sub == "did:x:b" && f.aud.as_deref() == if mask & 1 != 0 { Some(s.as_str()) } else { None } && f.exp == if mask & 2 != 0 { Some(n) } else { None } && f.nbf == if mask & 4 != 0 { Some(n ^ 1) } else { None } && f.iat == if mask & 8 != 0 { Some(n ^ 2) } else { None }, 30);
    let a = Who::new("did:x:a").auth("1", Kt::Ed, 2);
    let d = Dids::new(vec![a.doc()]); let se = Secs::new(a.secrets());
    let (j, k) = match run(f.pack(None, &d, &se)) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(31); return; } };
    match token(&j, Kt::Ed, 2) {
        Some((_, p)) => {
            let str_is = |k: &str, v: &Option<String>| match (p.get(k), v) { (Some(Value::String(x)), Some(y)) => x == y, (None, None) => true, _ => false };
            let num_is = |k: &str, v: &Option<u64>| match (p.get(k), v) { (Some(x), Some(y)) => x.as_u64() == Some(*y), (None, None) => true, _ => false };
            sym::check(str_is("iss", &Some(f.iss.clone())) && str_is("sub", &Some(f.sub.clone())) && str_is("aud", &f.aud) && str_is("jti", &f.jti) && num_is("exp", &f.exp) && num_is("nbf", &f.nbf) && num_is("iat", &f.iat), 32);
            sym::check(p.as_object().map(|o| o.len()) == Some(2 + mask.count_ones() as usize), 33);
        }
        None => sym::fail(34),
    }
    match run(FromPrior::unpack(&j, &d)) { Ok((f2, k2)) => { sym::check(f2 == f && k2 == k, 35); sym::reach(1); } Err(e) => { sym::obs(kcode(e.kind())); sym::fail(36); } }
}
/// a token packed into a message of any kind comes back as metadata
pub fn carried() {
    let t = match sym::choice(3) { 0 => Kt::Ed, 1 => Kt::P, _ => Kt::K };
    let p = Who::new("did:x:p").auth("1", t, 2); let a = Who::new("did:x:a").ka("k", Kt::X, 3).auth("s", Kt::Ed, 4); let b = Who::new("did:x:b").ka("1", Kt::X, 5);
    let mut sec = p.secrets(); sec.append(&mut a.secrets()); sec.append(&mut b.secrets());
    let d = Dids::new(vec![p.doc(), a.doc(), b.doc()]); let s = Secs::new(sec);
    let f = FromPrior::build("did:x:p".into(), "did:x:a".into()).iat(sym::byte() as u64).finalize();
    let (j, k) = match run(f.pack(if sym::flip() { Some("did:x:p#1") } else { None }, &d, &s)) { Ok(x) => x, Err(_) => { sym::fail(40); return; } };
    let mut m = Message::build("i".into(), "t".into(), Value::Null);
    if sym::flip() { m = m.from("did:x:a".into()); }
    let m = m.from_prior(j).to("did:x:b".into()).finalize();
    let q = match sym::choice(4) { 0 => run(m.pack_plaintext(&d)), 1 => run(m.pack_signed("did:x:a", &d, &s)).map(|x| x.0), 2 => run(m.pack_encrypted("did:x:b", if m.from.is_some() { Some("did:x:a") } else { None }, None, &d, &s, &opts(false))).map(|x| x.0), _ => run(m.pack_encrypted("did:x:b", Some("did:x:a"), Some("did:x:a"), &d, &s, &PackEncryptedOptions { protect_sender: true, ..opts(false) })).map(|x| x.0) };
    let q = match q { Ok(q) => q, Err(e) => { if m.from.is_none() && e.kind() == ErrorKind::IllegalArgument { return; } sym::obs(kcode(e.kind())); sym::fail(41); return; } };
    match run(Message::unpack(&q, &d, &s, &UnpackOptions::default())) { Ok((x, md)) => { sym::check(x == m, 42); sym::check(md.from_prior == Some(f) && md.from_prior_issuer_kid == Some(k), 43); sym::reach(1); } Err(e) => { sym::obs(kcode(e.kind())); sym::fail(44); } }
}
/// the issuer's document has 8 keys whose ids resemble each other, all, one or all but one of them held; the key named by id or left open
pub fn near_keys() {
    let n = gen::Near::new("did:x:a");
    let l = n.ids.len();
    let one = n.any();
    let t = [Kt::Ed, Kt::P, Kt::K][n.listed.len() % 3];
    let held: Vec<usize> = match sym::choice(3) { 0 => (0..l).collect(), 1 => vec![one], _ => (0..l).filter(|i| *i != one).collect() };
    let named = if sym::flip() { Some(match sym::choice(3) { 0 => one, 1 => (one + 1) % l, _ => (one + l - 1) % l }) } else { None };
    let d = Dids::new(vec![n.doc(false, t)]); let s = Secs::new(held.iter().map(|i| n.secret(t, *i)).collect());
    let ok: Vec<usize> = held.iter().filter(|i| n.listed.contains(&n.ids[**i]) && named.map(|k| k == **i && n.own(k)).unwrap_or(true)).cloned().collect();
    let f = FromPrior::build("did:x:a".into(), "did:x:b".into()).finalize();
    match run(f.pack(named.map(|i| n.ids[i].as_str()), &d, &s)) {
        Ok((j, k)) => {
            let i = match ok.iter().find(|i| n.ids[**i] == k) { Some(i) => *i, None => { sym::fail(50); return; } };
            match token(&j, t, 10 + i as u8) { Some((h, _)) => sym::check(h["kid"].as_str() == Some(k.as_str()), 51), None => sym::fail(52) }
            sym::reach(if named.is_some() { 1 } else { 2 });
        }
        Err(e) => {
            let k = kcode(e.kind()); sym::obs(k); sym::check(ok.is_empty(), 53);
            sym::check(k == match named { Some(i) if !n.own(i) => 9, Some(i) if !n.listed.contains(&n.ids[i]) => 2, _ => 3 }, 54);
            sym::reach(3);
        }
    }
}
