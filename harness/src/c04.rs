use crate::{craft::*, fix::*, gen, sym};
use didcomm::did::*;
use didcomm::*;
use serde_json::Value;

fn skt(i: u32) -> Kt { match i { 0 => Kt::Ed, 1 => Kt::P, _ => Kt::K } }
fn unpack(j: &str, d: &Dids) -> std::result::Result<(Message, UnpackMetadata), u64> { run(Message::unpack(j, d, &Secs::new(vec![]), &UnpackOptions::default())).map_err(|e| kcode(e.kind())) }

/// a library-signed or reference-signed envelope with one part replaced by any bytes of the same or another length
pub fn tamper() {
    let t = skt(sym::choice(3));
    let a = Who::new("did:x:a").auth("s", t, 2);
    let d = Dids::new(vec![a.doc()]);
    let m = Message::build("i".into(), "t".into(), Value::Null).finalize();
    let p = if sym::flip() { match run(m.pack_signed("did:x:a", &d, &Secs::new(a.secrets()))) { Ok(x) => x.0, Err(_) => { sym::fail(1); return; } } }
        else { Jws::new(t, 2, "did:x:a#s", run(m.pack_plaintext(&d)).unwrap_or_default().as_bytes()).json() };
    let j0 = match Jws::read(&p) { Some(j) => j, None => { sym::fail(2); return; } };
    let mut j = j0.clone();
    let part = sym::choice(5);
    let same = match part {
        0 => { // signature bytes
            let o = unb64(&j.sigs[0].2);
            let n = match sym::choice(4) { 0 => o.len(), 1 => o.len() - 1, 2 => o.len() + 1, _ => 0 };
            let v = sym::vec(n); let same = v == o; j.sigs[0].2 = b64(&v); same
        }
        1 => { // a window of payload bytes
            let mut o = unb64(&j.payload);
            let w = sym::by_tier(2, 3) as usize;
            let st = sym::by_tier(5, 1) as usize;
            let q = (sym::choice(((o.len() - w) / st + 1) as u32) as usize) * st;
            let v = sym::vec(w); let same = v[..] == o[q..q + w]; o[q..q + w].copy_from_slice(&v); j.payload = b64(&o); same
        }
        2 => { // window of payload text
            let w = sym::by_tier(1, 2) as usize; let st = sym::by_tier(9, 1) as usize;
            let q = (sym::choice(((j.payload.len() - w) / st + 1) as u32) as usize) * st;
            let v = sym::ident(w); let same = v == j.payload[q..q + w];
            let n = [&j.payload[..q], v.as_str(), &j.payload[q + w..]].concat(); j.payload = n; same
        }
        3 => { // window of protected header text
            let w = sym::by_tier(1, 2) as usize; let st = sym::by_tier(5, 1) as usize;
            let s = j.sigs[0].1.clone();
            let q = (sym::choice(((s.len() - w) / st + 1) as u32) as usize) * st;
            let v = sym::ident(w); let same = v == s[q..q + w];
            j.sigs[0].1 = [&s[..q], v.as_str(), &s[q + w..]].concat(); same
        }
        _ => { // payload replaced by another complete message with symbolic content
            let v = sym::ident(2);
            let t = plain(&["\"", v.as_str(), "\""].concat()); j.payload = b64(t.as_bytes()); false
        }
    };
    match unpack(&j.json(), &d) {
        Ok((x, md)) => { sym::check(same, 10); sym::check(x == m, 11); sym::check(md.non_repudiation && md.authenticated && md.sign_from.as_deref() == Some("did:x:a#s"), 12); sym::reach(1); }
        Err(k) => { sym::obs(k); sym::check(!same, 13); sym::reach(2); }
    }
    sym::reach(10 + part);
}

/// which (document, key id, algorithm, number of signatures, signing key) combinations are accepted
pub fn signer() {
    // victim document: keys 1 and 2 of chosen type; each listed under authentication and/or keyAgreement, with or without method
    let t = skt(sym::choice(3));
    let t2 = match sym::choice(3) { 0 => t, 1 => skt((match t { Kt::Ed => 0, Kt::P => 1, _ => 2 } + 1) % 3), _ => Kt::X };
    let listed = sym::choice(4); // 0 both in authentication; 1 only key 2; 2 in keyAgreement only; 3 both in authentication but no method for key 1
    let mut doc = DIDDoc { id: "did:x:a".into(), key_agreement: vec![], authentication: vec![], verification_method: vec![], service: vec![] };
    if listed != 1 && listed != 2 { doc.authentication.push("did:x:a#1".into()); }
    if listed != 2 { doc.authentication.push("did:x:a#2".into()); }
    if listed == 2 { doc.key_agreement = vec!["did:x:a#1".into(), "did:x:a#2".into()]; }
    if listed == 1 { doc.key_agreement = vec!["did:x:a#1".into()]; }
    if listed != 3 { doc.verification_method.push(vm("did:x:a#1", t, 2)); }
    doc.verification_method.push(vm("did:x:a#2", t2, 3));
    let mal = Who::new("did:x:m").auth("1", t, 9);
    let d = Dids::new(vec![doc.clone(), mal.doc()]);
    // the signature: made with key seed 2 (victim key 1), 3 (victim key 2), 9 (attacker)
    let (st, seed) = match sym::choice(3) { 0 => (t, 2u8), 1 => (t2, 3), _ => (t, 9) };
    if st == Kt::X { sym::assume(false); }
    let kid = match sym::choice(6) { 0 => "did:x:a#1", 1 => "did:x:a#2", 2 => "did:x:m#1", 3 => "did:x:a", 4 => "did:x:n#1", _ => "did:x:a#3" };
    let text = plain("1");
    let mut j = Jws::new(st, seed, kid, text.as_bytes());
    // algorithm stated: the one used or another one
    let alg = match sym::choice(5) { 0 => sig_alg(st).0, 1 => "EdDSA", 2 => "ES256", 3 => "ES256K", _ => "none" };
    if alg != sig_alg(st).0 {
        let h = b64(sig_header(alg).as_bytes());
        let inp = [h.as_str(), ".", j.payload.as_str()].concat();
        let s = raw_sign(st, seed, sig_alg(st).1, inp.as_bytes());
        j.sigs[0] = (kid.into(), h, b64(&s));
    }
    let n = sym::choice(4); // 0: one signature, 1: none, 2: two equal, 3: a second one by the attacker
    match n { 1 => j.sigs.clear(), 2 => { let s = j.sigs[0].clone(); j.sigs.push(s); } 3 => j.add(t, 9, "did:x:m#1"), _ => {} }
    let key = match kid { "did:x:a#1" => if listed == 0 { Some((t, 2u8)) } else { None }, "did:x:a#2" => if listed != 2 { Some((t2, 3)) } else { None }, "did:x:m#1" => Some((t, 9)), _ => None };
    let good = n == 0 && key == Some((st, seed)) && alg == sig_alg(st).0;
    match unpack(&j.json(), &d) {
        Ok((x, md)) => {
            sym::check(good, 20);
            sym::check(x.body == Value::from(1), 21);
            sym::check(md.sign_from.as_deref() == Some(kid) && md.authenticated && md.non_repudiation && !md.encrypted && md.signed_message.as_deref() == Some(j.json().as_str()), 22);
            sym::reach(1);
        }
        Err(k) => { sym::obs(k); sym::check(!good, 23); sym::reach(2); }
    }
}

/// any algorithm name and key-id text near the honest ones, signed by the honest key over the header received
pub fn names() {
    let t = skt(sym::choice(3));
    let a = Who::new("did:x:a").auth("s", t, 2);
    let d = Dids::new(vec![a.doc()]);
    let which = sym::flip();
    let honest = sig_alg(t).0;
    let mut alg = String::from(honest);
    let mut kid = String::from("did:x:a#s");
    if which {
        // one character of the name (or one appended) is anything
        let q = sym::choice(honest.len() as u32 * 2 + 1) as usize;
        let c = sym::ident(1);
        alg = if q > honest.len() { let q = q - honest.len() - 1; [&honest[..q], c.as_str(), &honest[q..]].concat() } else if q == honest.len() { [honest, c.as_str()].concat() } else { [&honest[..q], c.as_str(), &honest[q + 1..]].concat() };
    } else {
        let q = sym::choice(19) as usize;
        let c = sym::ident(1);
        kid = if q > 9 { [&kid[..q - 10], c.as_str(), &kid[q - 10..]].concat() } else if q == 9 { ["did:x:a#s", c.as_str()].concat() } else { ["did:x:a#s".get(..q).unwrap_or(""), c.as_str(), "did:x:a#s".get(q + 1..).unwrap_or("")].concat() };
    }
    let h = b64(sig_header(&alg).as_bytes());
    let p = b64(plain("1").as_bytes());
    let inp = [h.as_str(), ".", p.as_str()].concat();
    let s = b64(&raw_sign(t, 2, sig_alg(t).1, inp.as_bytes()));
    let j = Jws { payload: p, sigs: vec![(kid.clone(), h, s)] };
    let good = alg == honest && kid == "did:x:a#s";
    match unpack(&j.json(), &d) {
        Ok((_, md)) => { sym::check(good, 30); sym::check(md.sign_from.as_deref() == Some("did:x:a#s"), 31); sym::reach(1); }
        Err(k) => { sym::obs(k); sym::check(!good, 32); sym::reach(2); }
    }
}
/// the signer's document has keys whose ids resemble each other: only a listed key accepts its own signature, whichever other key made it
pub fn near() {
    let n = gen::Near::new("did:x:a");
    let t = skt(n.listed.len() as u32 % 3);
    let d = Dids::new(vec![n.doc(false, t)]);
    let i = n.any(); let k = n.other(i);
    let j = Jws::new(t, 10 + k as u8, &n.ids[i], plain("1").as_bytes());
    let good = i == k && n.own(i) && n.listed.contains(&n.ids[i]);
    match unpack(&j.json(), &d) {
        Ok((_, md)) => { sym::check(good, 40); sym::check(md.sign_from.as_ref() == Some(&n.ids[i]), 41); sym::reach(1); }
        Err(k) => { sym::obs(k); sym::check(!good, 42); sym::reach(2); }
    }
}
/// honestly signed payloads with any bytes in them: what comes out is what was signed, or nothing
pub fn payload() {
    let a = Who::new("did:x:a").auth("s", Kt::Ed, 2);
    let d = Dids::new(vec![a.doc()]);
    let mut p = plain("\"abcd\"").into_bytes();
    let w = sym::by_tier(1, 2) as usize;
    let c = sym::vec(w);
    let q = match sym::choice(3) { 0 => p.len() - 6, 1 => p.len() - 1, _ => { p.extend_from_slice(b"    "); p.len() - 3 } };
    p[q..q + w].copy_from_slice(&c);
    let j = Jws::new(Kt::Ed, 2, "did:x:a#s", &p);
    let want: Option<Message> = std::str::from_utf8(&p).ok().and_then(|t| serde_json::from_str(t).ok());
    match (unpack(&j.json(), &d), want) {
        (Ok((m, md)), Some(w)) => { sym::check(m == w, 50); sym::check(md.signed_message == Some(j.json()), 51); sym::reach(1); }
        (Err(k), None) => { sym::check(k == 4, 52); sym::reach(2); }
        (Err(k), _) => { sym::obs(k); sym::fail(53) }
        _ => sym::fail(54),
    }
}
