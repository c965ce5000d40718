use crate::{craft::*, fix::*, gen, sym};
use didcomm::did::*;
use didcomm::error::ErrorKind;
use didcomm::*;
use serde_json::Value;

fn skt(i: u32) -> Kt { match i { 0 => Kt::Ed, 1 => Kt::P, _ => Kt::K } }
fn claim(iss: &str, sub: &str) -> String { ["{\"iss\":\"", iss, "\",\"sub\":\"", sub, "\"}"].concat() }
fn tok(t: Kt, seed: u8, kid: &str, iss: &str, sub: &str) -> String { jwt(t, seed, &jwt_header("JWT", sig_alg(t).0, kid), claim(iss, sub).as_bytes()) }
/// one character of an honest token replaced by anything, inserted or removed, or the signature replaced
pub fn tamper() {
    let t = skt(sym::choice(3));
    let d = Dids::new(vec![Who::new("did:x:a").auth("1", t, 2).doc()]);
    let j0 = tok(t, 2, "did:x:a#1", "did:x:a", "did:x:b");
    let n = j0.len() as u32;
    let part = sym::choice(6);
    let mut sig = None;
    let j = match part {
        0 => { let p: Vec<&str> = j0.split('.').collect(); let len = match sym::choice(4) { 0 => 64, 1 => 63, 2 => 65, _ => 0 }; let v = sym::vec(len); sig = Some(v == unb64(p[2])); [p[0], ".", p[1], ".", b64(&v).as_str()].concat() }
        1 => { let w = sym::by_tier(1, 2); let q = sym::choice(n - w + 1) as usize; let v = sym::ascii(w as usize); [&j0[..q], v.as_str(), &j0[q + w as usize..]].concat() }
        2 => { let q = sym::choice(n + 1) as usize; let v = sym::ascii(1); [&j0[..q], v.as_str(), &j0[q..]].concat() }
        3 => j0[..sym::choice(n) as usize].to_string(),
        4 => { let p: Vec<&str> = j0.split('.').collect(); match sym::choice(6) { 0 => [p[0], ".", p[1]].concat(), 1 => [p[0], ".", p[1], ".", p[2], "."].concat(), 2 => [p[0], ".", p[1], ".", p[2], ".", p[2]].concat(), 3 => [".", p[1], ".", p[2]].concat(), 4 => [p[0], "..", p[2]].concat(), _ => [p[1], ".", p[0], ".", p[2]].concat() } }
        _ => { // header and payload of two honest tokens mixed
            let k = tok(t, 2, "did:x:a#1", "did:x:a", "did:x:c"); let p: Vec<&str> = j0.split('.').collect(); let q: Vec<&str> = k.split('.').collect(); if sym::flip() { [p[0], ".", q[1], ".", p[2]].concat() } else { [p[0], ".", p[1], ".", q[2]].concat() } }
    };
    // accepted only with the honest header and payload text and a signature text denoting the honest signature
    let (a, b): (Vec<&str>, Vec<&str>) = (j0.split('.').collect(), j.split('.').collect());
    let same = if let Some(x) = sig { x } else { b.len() == 3 && a[0].as_bytes() == b[0].as_bytes() && a[1].as_bytes() == b[1].as_bytes() && (a[2].as_bytes() == b[2].as_bytes() || base64::decode_config(b[2], base64::URL_SAFE_NO_PAD).ok() == Some(unb64(a[2]))) };
    match run(FromPrior::unpack(&j, &d)) {
        Ok((f, k)) => { sym::check(same, 1); sym::check(f == FromPrior::build("did:x:a".into(), "did:x:b".into()).finalize() && k == "did:x:a#1", 2); sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(!same, 3); sym::reach(2); }
    }
    sym::reach(10 + part);
}
/// which (key named, key listing, algorithm stated, typ, signing key) combinations are accepted
pub fn keys() {
    let t = skt(sym::choice(3));
    let t2 = match sym::choice(3) { 0 => t, 1 => match t { Kt::Ed => Kt::P, Kt::P => Kt::K, _ => Kt::Ed }, _ => Kt::X };
    let listed = sym::choice(4); // as in document: 0 both in authentication; 1 only key 2; 2 in keyAgreement only; 3 both, but no method for key 1
    let mut doc = DIDDoc { id: "did:x:a".into(), key_agreement: vec![], authentication: vec![], verification_method: vec![], service: vec![] };
    if listed != 1 && listed != 2 { doc.authentication.push("did:x:a#1".into()); }
    if listed != 2 { doc.authentication.push("did:x:a#2".into()); }
    if listed == 2 { doc.key_agreement = vec!["did:x:a#1".into(), "did:x:a#2".into()]; }
    if listed == 1 { doc.key_agreement = vec!["did:x:a#1".into()]; }
    if listed != 3 { doc.verification_method.push(vm("did:x:a#1", t, 2)); }
    doc.verification_method.push(vm("did:x:a#2", t2, 3));
    let d = Dids::new(vec![doc, Who::new("did:x:m").auth("1", t, 9).doc()]);
    let (st, seed) = match sym::choice(3) { 0 => (t, 2u8), 1 => (t2, 3), _ => (t, 9) };
    if st == Kt::X { sym::assume(false); }
    let kid = match sym::choice(6) { 0 => "did:x:a#1", 1 => "did:x:a#2", 2 => "did:x:m#1", 3 => "did:x:a", 4 => "did:x:n#1", _ => "did:x:a#3" };
    let alg = match sym::choice(4) { 0 => "EdDSA", 1 => "ES256", 2 => "ES256K", _ => "none" };
    let iss = if kid == "did:x:m#1" { "did:x:m" } else { "did:x:a" };
    let j = jwt(st, seed, &jwt_header("JWT", alg, kid), claim(iss, "did:x:b").as_bytes());
    let key = match kid { "did:x:a#1" => if listed == 0 { Some((t, 2u8)) } else { None }, "did:x:a#2" => if listed != 2 { Some((t2, 3)) } else { None }, "did:x:m#1" => Some((t, 9)), _ => None };
    let good = key == Some((st, seed)) && alg == sig_alg(st).0;
    match run(FromPrior::unpack(&j, &d)) {
        Ok((f, k)) => { sym::check(good, 20); sym::check(k == kid && f.iss == iss && f.sub == "did:x:b", 21); sym::reach(1); }
        Err(e) => {
            let c = e.kind(); sym::obs(kcode(c)); sym::check(!good, 22); sym::reach(2);
            if kid == "did:x:a" { sym::check(c == ErrorKind::Malformed, 23); } else if kid == "did:x:n#1" { sym::check(c == ErrorKind::DIDNotResolved, 24); } else if key.is_none() { sym::check(c == ErrorKind::DIDUrlNotFound, 25); }
        }
    }
}
/// header texts near the honest ones, signed by the honest key over the header received
pub fn names() {
    let t = skt(sym::choice(3));
    let d = Dids::new(vec![Who::new("did:x:a").auth("s", t, 2).doc()]);
    let (mut typ, mut alg, mut kid) = (String::from("JWT"), String::from(sig_alg(t).0), String::from("did:x:a#s"));
    let which = sym::choice(3);
    let f = match which { 0 => &mut typ, 1 => &mut alg, _ => &mut kid };
    let o = f.clone();
    let q = sym::choice(o.len() as u32 * 2 + 2) as usize;
    let c = sym::ident(1);
    *f = if q > o.len() + 1 { let q = q - o.len() - 2; [&o[..q], c.as_str(), &o[q..]].concat() } else if q < o.len() { [&o[..q], c.as_str(), &o[q + 1..]].concat() } else if q == o.len() { [o.as_str(), c.as_str()].concat() } else { String::new() };
    let good = f.as_bytes() == o.as_bytes();
    let j = jwt(t, 2, &jwt_header(&typ, &alg, &kid), claim("did:x:a", "did:x:b").as_bytes());
    match run(FromPrior::unpack(&j, &d)) { Ok((_, k)) => { sym::check(good && k == "did:x:a#s", 30); sym::reach(1); } Err(e) => { sym::obs(kcode(e.kind())); sym::check(!good, 31); sym::reach(2); } }
}
/// who may speak for a DID: the issuer stated is any DID, the key is its own or someone else's; alone and inside any message
pub fn issuer() {
    let a = Who::new("did:x:a").auth("1", Kt::Ed, 2); let m = Who::new("did:x:m").auth("1", Kt::Ed, 9); let b = Who::new("did:x:b").ka("1", Kt::X, 5).auth("s", Kt::Ed, 6);
    let d = Dids::new(vec![a.doc(), m.doc(), b.doc()]);
    let (kid, seed, owner) = match sym::choice(3) { 0 => ("did:x:a#1", 2, "did:x:a"), 1 => ("did:x:m#1", 9, "did:x:m"), _ => ("did:x:b#s", 6, "did:x:b") };
    let iss = match sym::choice(5) { 0 => ["did:x:", sym::ident(1).as_str()].concat(), 1 => kid.to_string(), 2 => ["did:x:a", sym::ident(1).as_str()].concat(), 3 => String::new(), _ => { let k = sym::choice(7) as usize; ["did:x:a".get(..k).unwrap_or(""), sym::ident(1).as_str(), "did:x:a".get(k + 1..).unwrap_or("")].concat() } };
    let j = tok(Kt::Ed, seed, kid, &iss, "did:x:b");
    let good = iss.as_bytes() == owner.as_bytes();
    let r = if sym::flip() { run(FromPrior::unpack(&j, &d)).map(|x| (x.0, x.1)) } else {
        let p = ["{\"id\":\"i\",\"typ\":\"application/didcomm-plain+json\",\"type\":\"t\",\"body\":1,\"from_prior\":\"", j.as_str(), "\"}"].concat();
        let p = match sym::choice(3) { 0 => p, 1 => Jws::new(Kt::Ed, 6, "did:x:b#s", p.as_bytes()).json(), _ => Enc::new(Kt::X, Ce::Gcm, &[("did:x:b#1", 5)]).pack(p.as_bytes()) };
        run(Message::unpack(&p, &d, &Secs::new(b.secrets()), &UnpackOptions::default())).map(|x| (x.1.from_prior.unwrap_or(FromPrior::build(String::new(), String::new()).finalize()), x.1.from_prior_issuer_kid.unwrap_or_default()))
    };
    match r { Ok((f, k)) => { sym::check(good, 40); sym::check(f.iss == iss && f.sub == "did:x:b" && k == kid, 41); sym::reach(1); } Err(e) => { sym::obs(kcode(e.kind())); sym::check(!good, 42); sym::check(e.kind() == ErrorKind::Malformed, 43); sym::reach(2); } }
}
/// the payload of an honestly signed token: any JSON shape; only complete claims are accepted
pub fn payload() {
    let d = Dids::new(vec![Who::new("did:x:a").auth("1", Kt::Ed, 2).doc()]);
    let c = sym::ascii(1);
    let part = sym::choice(6);
    let (p, ok): (Vec<u8>, Option<bool>) = match part {
        0 => { let s = claim("did:x:a", "did:x:b"); let q = sym::choice(s.len() as u32) as usize; ([&s[..q], c.as_str(), &s[q + 1..]].concat().into_bytes(), None) }
        1 => { let mut s = claim("did:x:a", "did:x:b").into_bytes(); let q = s.len() - 4 + sym::choice(2) as usize; s[q] = sym::byte(); (s, None) }
        2 => (b"{\"iss\":\"did:x:a\"}".to_vec(), Some(false)), 3 => (b"{\"sub\":\"did:x:a\"}".to_vec(), Some(false)),
        4 => { let v = ["1", "-1", "1.5", "\"1\"", "null", "18446744073709551616", "true", "{}"]; let k = sym::choice(8) as usize; (["{\"iss\":\"did:x:a\",\"sub\":\"did:x:b\",\"exp\":", v[k], "}"].concat().into_bytes(), Some(k == 0 || k == 4)) }
        _ => { let n = sym::choice(claim("did:x:a", "did:x:b").len() as u32) as usize; (claim("did:x:a", "did:x:b").as_bytes()[..n].to_vec(), Some(false)) }
    };
    let j = jwt(Kt::Ed, 2, &jwt_header("JWT", "EdDSA", "did:x:a#1"), &p);
    // oracle: what the text says as JSON
    let v: Option<Value> = serde_json::from_slice(&p).ok();
    let says = match &v { Some(v) => match (v.get("iss").and_then(|x| x.as_str()), v.get("sub").and_then(|x| x.as_str())) { (Some(i), Some(s)) => Some((i.to_string(), s.to_string())), _ => None }, None => None };
    match run(FromPrior::unpack(&j, &d)) {
        Ok((f, _)) => { sym::check(ok != Some(false), 50); match &says { Some((i, s)) => { sym::check(f.iss == *i && f.sub == *s, 51); sym::check(i.as_bytes() == b"did:x:a", 52); } None => sym::fail(53) } sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(e.kind() == ErrorKind::Malformed, 54); sym::check(ok != Some(true), 55); if part == 1 { match &says { Some((i, _)) => sym::check(i.as_bytes() != b"did:x:a", 56), None => {} } } sym::reach(2); }
    }
}
/// a message is packed only with an acceptable token that rotates to its sender
pub fn packing() {
    let p = Who::new("did:x:p").auth("1", Kt::Ed, 2); let a = Who::new("did:x:a").ka("k", Kt::X, 3).auth("s", Kt::Ed, 4); let b = Who::new("did:x:b").ka("1", Kt::X, 5); let m = Who::new("did:x:m").auth("1", Kt::Ed, 9);
    let mut sec = a.secrets(); sec.append(&mut b.secrets());
    let d = Dids::new(vec![p.doc(), a.doc(), b.doc(), m.doc()]); let s = Secs::new(sec);
    let sub = match sym::choice(3) { 0 => "did:x:a".to_string(), 1 => { let k = sym::choice(8) as usize; ["did:x:a".get(..k).unwrap_or(""), sym::ident(1).as_str(), "did:x:a".get(k + 1..).unwrap_or("")].concat() } _ => "did:x:p".to_string() };
    let kind = sym::choice(5);
    let j = match kind { 0 => tok(Kt::Ed, 2, "did:x:p#1", "did:x:p", &sub), 1 => tok(Kt::Ed, 9, "did:x:p#1", "did:x:p", &sub), 2 => tok(Kt::Ed, 9, "did:x:m#1", "did:x:p", &sub), 3 => { let mut t = tok(Kt::Ed, 2, "did:x:p#1", "did:x:p", &sub); t.truncate(t.len() - 2); t } _ => tok(Kt::Ed, 2, "did:x:p#1", "did:x:m", &sub) };
    let from = sym::choice(3);
    let mut msg = Message::build("i".into(), "t".into(), Value::from(1)).from_prior(j);
    if from == 1 { msg = msg.from("did:x:a".into()); }
    if from == 2 { msg = msg.from("did:x:b".into()); }
    let msg = msg.finalize();
    let how = sym::choice(4);
    // encrypted from a sender requires from to name it; keep combinations that are otherwise fine
    if how == 3 && from != 1 { sym::assume(false); }
    let r = match how { 0 => run(msg.pack_plaintext(&d)), 1 => run(msg.pack_signed("did:x:a", &d, &s)).map(|x| x.0), 2 => run(msg.pack_encrypted("did:x:b", None, None, &d, &s, &opts(false))).map(|x| x.0), _ => run(msg.pack_encrypted("did:x:b", Some("did:x:a"), None, &d, &s, &opts(false))).map(|x| x.0) };
    let sb = sub.as_bytes();
    let is_did = sb.starts_with(b"did:") && sb[4..].contains(&b':') && !sb.contains(&b'#');
    let good = kind == 0 && is_did && sb != b"did:x:p" && (from == 0 || (from == 1 && sb == b"did:x:a") || (from == 2 && sb == b"did:x:b"));
    match r {
        Ok(q) => { sym::check(good, 60); match run(Message::unpack(&q, &d, &s, &UnpackOptions::default())) { Ok((x, md)) => { sym::check(x == msg, 61); sym::check(md.from_prior.map(|f| f.iss == "did:x:p" && f.sub == sub) == Some(true), 62); } Err(e) => { sym::obs(kcode(e.kind())); sym::fail(63); } } sym::reach(1 + how); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(!good, 64); sym::reach(10); }
    }
}
/// the issuer's document has keys whose ids resemble each other: a token stating one is accepted only when signed by that very key, listed
pub fn near() {
    let n = gen::Near::new("did:x:a");
    let t = skt(n.listed.len() as u32 % 3);
    let d = Dids::new(vec![n.doc(false, t)]);
    let i = n.any(); let k = n.other(i);
    let good = i == k && n.own(i) && n.listed.contains(&n.ids[i]);
    match run(FromPrior::unpack(&tok(t, 10 + k as u8, &n.ids[i], "did:x:a", "did:x:b"), &d)) {
        Ok((_, k)) => { sym::check(good, 70); sym::check(k == n.ids[i], 71); sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(!good, 72); sym::reach(2); }
    }
}
