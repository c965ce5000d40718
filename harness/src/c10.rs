use crate::{craft::*, fix::*, gen, sym};
use crate::fix::opts;
use didcomm::did::*;
use didcomm::*;

/// entry kinds of a keyAgreement list
#[derive(Clone, Copy, PartialEq, Eq)]
enum Kk { X, P, Ed, K, Uns, Missing }
fn kk(i: u32) -> Kk { match i { 0 => Kk::X, 1 => Kk::P, 2 => Kk::Uns, 3 => Kk::Missing, 4 => Kk::Ed, _ => Kk::K } }
fn vms(k: Kk, id: &str, seed: u8) -> Option<VerificationMethod> {
    Some(match k {
        Kk::X => vm(id, Kt::X, seed), Kk::P => vm(id, Kt::P, seed), Kk::Ed => vm(id, Kt::Ed, seed), Kk::K => vm(id, Kt::K, seed),
        Kk::Uns => VerificationMethod { id: id.into(), type_: VerificationMethodType::Other, controller: "c".into(), verification_material: VerificationMaterial::Base58 { public_key_base58: "z".into() } },
        Kk::Missing => return None,
    })
}
fn ktof(k: Kk) -> Option<Kt> { match k { Kk::X => Some(Kt::X), Kk::P => Some(Kt::P), _ => None } }

/// recipient document with up to 3 keyAgreement entries of any kind; anonymous (from = None) or authenticated by a sender holding X and/or P keys
fn go(anon: bool) {
    let n = 1 + sym::choice(sym::by_tier(3, 3));
    let nk = sym::by_tier(5, 6);
    let kinds: Vec<Kk> = (0..n).map(|_| kk(sym::choice(nk))).collect();
    let ids: Vec<String> = (0..n).map(|i| format_id("did:x:b", match i { 0 => "m", 1 => "c", _ => "z" })).collect();
    let mut doc = DIDDoc { id: "did:x:b".into(), key_agreement: ids.clone(), authentication: vec!["did:x:b#auth".into()], verification_method: vec![], service: vec![] };
    let rev = n > 1 && sym::flip();
    doc.verification_method.push(vm("did:x:b#auth", if sym::flip() { Kt::X } else { Kt::P }, 60));
    for i in 0..n as usize { let j = if rev { n as usize - 1 - i } else { i }; if let Some(v) = vms(kinds[j], &ids[j], 10 + j as u8) { doc.verification_method.push(v); } }
    // recipient argument: the DID, each key, an authentication-only key, an unknown key
    let t = sym::choice(n + 3);
    let to = if t == 0 { "did:x:b".to_string() } else if t <= n { ids[(t - 1) as usize].clone() } else if t == n + 1 { "did:x:b#auth".into() } else { "did:x:b#none".into() };
    let sel: Vec<usize> = (0..n as usize).filter(|i| t == 0 || *i as u32 + 1 == t).collect();
    // sender
    let sm = if anon { 0 } else { 1 + sym::choice(3) };
    let mut a = Who::new("did:x:a");
    if sm & 1 != 0 { a = a.ka("x", Kt::X, 1); }
    if sm & 2 != 0 { a = a.ka("p", Kt::P, 2); }
    let d = Dids::new(vec![doc, a.doc()]); let s = Secs::new(a.secrets());
    let m = gen::message(0, "", 0);
    let r = run(m.pack_encrypted(&to, if anon { None } else { Some("did:x:a") }, None, &d, &s, &opts(false)));
    let missing = sel.iter().any(|i| kinds[*i] == Kk::Missing);
    let alien = sel.iter().any(|i| matches!(kinds[*i], Kk::Ed | Kk::K));
    let usable = |k: Kk| match ktof(k) { Some(Kt::X) => anon || sm & 1 != 0, Some(Kt::P) => anon || sm & 2 != 0, _ => false };
    let any = sel.iter().any(|i| usable(kinds[*i]));
    match r {
        Ok((p, md)) => {
            sym::check(any, 1);
            let j = match Jwe::read(&p) { Some(j) => j, None => { sym::fail(2); return; } };
            sym::check(j.kids() == md.to_kids.iter().map(|s| s.as_str()).collect::<Vec<_>>(), 3);
            sym::check(!md.to_kids.is_empty(), 4);
            // the chosen curve, then exactly the keys of that curve among the addressed ones
            let first = ids.iter().position(|i| *i == md.to_kids[0]);
            let t = match first.and_then(|i| ktof(kinds[i])) { Some(t) => t, None => { sym::fail(5); return; } };
            sym::check(usable(if t == Kt::X { Kk::X } else { Kk::P }), 6);
            let want: Vec<&String> = sel.iter().filter(|i| ktof(kinds[**i]) == Some(t)).map(|i| &ids[*i]).collect();
            sym::check(want.len() == md.to_kids.len(), 7);
            for w in &want { sym::check(md.to_kids.contains(w), 8); }
            // each recipient entry opens with exactly its own key
            let sp = match &md.from_kid { Some(k) => { let x = a.ka.iter().find(|y| y.0 == *k); match x { Some(x) => { sym::check(x.1 == t, 9); Some(pk(x.1, x.2)) } None => { sym::fail(10); return; } } } None => { sym::check(anon, 11); None } };
            let pt = run(m.pack_plaintext(&d)).unwrap_or_default();
            for (i, id) in ids.iter().enumerate() {
                if !md.to_kids.contains(id) { continue; }
                sym::check(open(&j, id, t, 10 + i as u8, sp) == Some(pt.clone().into_bytes()), 12);
                for k in 0..n as usize { if k != i && ktof(kinds[k]).is_some() { sym::check(open(&j, id, t, 10 + k as u8, sp).is_none(), 13); } }
                sym::check(open(&j, id, t, 60, sp).is_none(), 14);
            }
            sym::reach(1);
            if md.to_kids.len() > 1 { sym::reach(2); }
        }
        Err(e) => {
            let k = kcode(e.kind()); sym::obs(k);
            // it may only fail when there is nothing it could encrypt to, or the list contains an entry it cannot interpret
            sym::check(!any || missing || alien, 20);
            if sel.is_empty() { sym::check(k == 2, 21); sym::reach(3); }
            else if !any && !missing && !alien && !anon { sym::check(k == 7, 22); sym::reach(4); }
            else { sym::reach(5); }
        }
    }
}
pub fn anon() { go(true) }
pub fn auth() { go(false) }
fn near_go(anon: bool) {
    const N: [&str; 6] = ["did:x:b#k", "did:x:b#kk", "did:x:b#K", "did:x:b#k/1", "did:x:B#k", "did:x:b#k "];
    let c = ["did:x:b#", sym::ident(1).as_str(), if sym::flip() { "k" } else { "" }].concat();
    sym::assume(!N.contains(&c.as_str()));
    let mut ids: Vec<String> = N.iter().map(|s| s.to_string()).collect();
    match sym::choice(3) { 0 => ids.insert(0, c), 1 => ids.insert(3, c), _ => { ids.reverse(); ids.push(c); } }
    // any one of them, or none, left out of keyAgreement
    let gone = ids.get(sym::choice(8) as usize).cloned();
    let listed: Vec<String> = ids.iter().filter(|i| Some(*i) != gone.as_ref()).cloned().collect();
    let mut doc = DIDDoc { id: "did:x:b".into(), key_agreement: listed.clone(), authentication: ids.clone(), verification_method: vec![], service: vec![] };
    for (i, id) in ids.iter().enumerate() { doc.verification_method.push(vm(id, Kt::X, 10 + i as u8)); }
    let a = Who::new("did:x:a").ka("x", Kt::X, 1);
    let d = Dids::new(vec![doc, a.doc()]); let s = Secs::new(a.secrets());
    let t = sym::choice(8) as usize;
    let to = if t < ids.len() { ids[t].clone() } else { "did:x:b".to_string() };
    if to.starts_with("did:x:B") { return; }
    let want: Vec<&String> = if t < ids.len() { listed.iter().filter(|i| **i == to).collect() } else { listed.iter().collect() };
    let m = gen::message(0, "", 0);
    match run(m.pack_encrypted(&to, if anon { None } else { Some("did:x:a") }, None, &d, &s, &opts(false))) {
        Ok((p, md)) => {
            sym::check(md.to_kids.len() == want.len() && want.iter().all(|w| md.to_kids.contains(w)), 30);
            let j = match Jwe::read(&p) { Some(j) => j, None => { sym::fail(31); return; } };
            sym::check(j.kids() == md.to_kids.iter().map(|s| s.as_str()).collect::<Vec<_>>(), 32);
            let sp = if anon { None } else { Some(pk(Kt::X, 1)) };
            for (i, id) in ids.iter().enumerate() { if md.to_kids.contains(id) { sym::check(open(&j, id, Kt::X, 10 + i as u8, sp).is_some(), 33); } }
            sym::reach(if t < ids.len() { 1 } else { 2 });
        }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(want.is_empty(), 34); sym::check(kcode(e.kind()) == 2, 35); sym::reach(3); }
    }
}
/// recipient keys whose ids resemble each other (prefix, case, another DID), one of them symbolic, any one not in keyAgreement: a key id selects exactly that key, the DID all of the 6 or 7
pub fn near_anon() { near_go(true) }
/// the same with an authenticated sender
pub fn near_auth() { near_go(false) }
