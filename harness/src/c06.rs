use crate::{craft::*, fix::*, sym};
use didcomm::*;

fn unpack(j: &str, d: &Dids, s: &Secs) -> std::result::Result<(Message, UnpackMetadata), u64> { run(Message::unpack(j, d, s, &UnpackOptions::default())).map_err(|e| kcode(e.kind())) }
fn enc(auth: bool, kids: &[(&str, u8)]) -> Enc { let e = Enc::new(Kt::X, if auth { Ce::Cbc } else { Ce::Xc }, kids); if auth { e.from("did:x:a#1", 1) } else { e } }
fn dids() -> Dids { Dids::new(vec![Who::new("did:x:a").ka("1", Kt::X, 1).doc()]) }

/// apv differing from the honest digest at any position, or longer, or shorter
pub fn apv() {
    let auth = sym::flip();
    let kids = [("did:x:b#2", 5u8), ("did:x:b#1", 6), ("did:x:b#10", 7)];
    let n = 1 + sym::choice(3) as usize;
    let mut e = enc(auth, &kids[..n]);
    let names: Vec<&str> = kids[..n].iter().map(|k| k.0).collect();
    let honest = apv_of(&names);
    // a window of any bytes at each position, a longer or shorter digest, a digest of another length
    let w = sym::by_tier(1, 2) as usize;
    let v = match sym::choice(5) {
        0 | 1 => { let mut v = honest.clone(); let q = sym::choice((33 - w) as u32) as usize; let b = sym::vec(w); v[q..q + w].copy_from_slice(&b); v }
        2 => { let mut v = honest.clone(); let b = sym::vec(1); v.extend_from_slice(&b); v }
        3 => honest[..sym::choice(32) as usize].to_vec(),
        _ => sym::vec(sym::choice(2) as usize),
    };
    let good = v == honest;
    e.h_apv = Some(v);
    let held = sym::choice(n as u32) as usize;
    let s = Secs::new(vec![secret(kids[held].0, Kt::X, kids[held].1)]);
    match unpack(&e.pack(plain("1").as_bytes()), &dids(), &s) {
        Ok((_, md)) => { sym::check(good, 10); sym::check(md.encrypted_to_kids.as_ref().map(|k| k.iter().map(|x| x.as_str()).collect::<Vec<_>>() == names) == Some(true), 11); sym::reach(1); }
        Err(k) => { sym::check(!good, 12); sym::check(k == 4, 13); sym::reach(2); }
    }
}

/// recipients added, removed, renamed, duplicated or reordered after packing
pub fn edit() {
    let auth = sym::flip();
    let kids = [("did:x:b#2", 5u8), ("did:x:b#1", 6), ("did:x:b#10", 7)];
    let n = 1 + sym::choice(3) as usize;
    let e = enc(auth, &kids[..n]);
    let mut j = e.parts(plain("1").as_bytes());
    let held = sym::choice(n as u32) as usize;
    let s = Secs::new(vec![secret(kids[held].0, Kt::X, kids[held].1), secret("did:x:c#1", Kt::X, 8)]);
    let mut j2 = j.clone();
    let op = sym::choice(8);
    match op {
        0 => { let k = sym::choice(n as u32) as usize; j2.recipients.rotate_left(k); }
        1 => { j2.recipients.reverse(); }
        2 => { let k = sym::choice(n as u32) as usize; j2.recipients.remove(k); }
        3 => { let k = sym::choice(n as u32 + 1) as usize; let r = (match sym::choice(4) { 0 => "did:x:b#3", 1 => "did:x:c#1", 2 => "did:x:b", _ => "" }.to_string(), j.recipients[0].1.clone()); j2.recipients.insert(k, r); }
        4 => { let k = sym::choice(n as u32) as usize; let r = j.recipients[k].clone(); j2.recipients.push(r); }
        5 => { let k = sym::choice(n as u32) as usize; j2.recipients[k].0 = match sym::choice(3) { 0 => "did:x:b#x", 1 => "did:x:c#2", _ => "did:x:b" }.into(); }
        6 => { if n > 1 { let k0 = j.recipients[0].0.clone(); j2.recipients[0].0 = j.recipients[1].0.clone(); j2.recipients[1].0 = k0; } }
        _ => { j2.recipients.clear(); }
    }
    // the multiset of ids must be what was authenticated
    let (mut x, mut y) = (j.kids(), j2.kids());
    x.sort(); y.sort();
    let same_ids = x == y;
    // ids swapped between entries: the holder's entry carries another key
    let mine = |q: &Jwe| q.recipients.iter().find(|r| r.0 == kids[held].0).map(|r| r.1.clone());
    let good = same_ids && mine(&j) == mine(&j2);
    match unpack(&j2.json(), &dids(), &s) {
        Ok(_) => { sym::check(good, 20); sym::reach(1); }
        Err(k) => { sym::obs(k); sym::check(!good, 21); sym::reach(2); if same_ids { sym::reach(3); } }
    }
    sym::reach(10 + op);
    j.tag.clear();
}

/// apv honest for the ids given, ids of any DID / fragment shape: accepted only under one DID with fragments
pub fn one_did() {
    let auth = sym::flip();
    let pool = ["did:x:b#1", "did:x:b#2", "did:x:c#1", "did:x:b", "did:x:bb#1", "did:x:b#", "#1", "did:x:B#1", "DID:x:b#1", "did:x:b?v=1#1", "did:x:b#1#2", "", "did:x:b/p#1", " did:x:b#1", "did:x:b;s#1"];
    let np = sym::by_tier(10, 15);
    let n = 1 + sym::choice(3) as usize;
    let pick: Vec<usize> = (0..n).map(|i| if n == 3 && i < 2 && sym::tier() == 0 { i } else { sym::choice(np) as usize }).collect();
    let kids: Vec<(&str, u8)> = pick.iter().enumerate().map(|(i, p)| (pool[*p], 5 + i as u8)).collect();
    let e = enc(auth, &kids);
    let held = sym::choice(n as u32) as usize;
    let s = Secs::new(vec![secret(kids[held].0, Kt::X, kids[held].1)]);
    let did = |k: &str| k.split('#').next().unwrap_or("").to_string();
    let frag = |k: &str| k.contains('#');
    let good_shape = kids.iter().all(|k| frag(k.0) && did(k.0) == did(kids[0].0));
    let first_of_id = kids.iter().position(|k| k.0 == kids[held].0) == Some(held);
    match unpack(&e.pack(plain("1").as_bytes()), &dids(), &s) {
        Ok(_) => { sym::check(good_shape, 30); sym::reach(1); }
        Err(k) => { sym::obs(k); if good_shape && first_of_id { sym::check(false, 31); } if !good_shape { sym::check(k == 4, 32); sym::reach(3); } sym::reach(2); }
    }
}

/// key ids with any characters: the digest is taken over the sorted dot-joined list of exactly these ids (sorting is by bytes)
pub fn sorting() {
    let auth = sym::flip();
    let mut c = sym::bytes::<2>();
    for x in &c { sym::assume(*x >= b'!' && *x <= b'~' && *x != b'"' && *x != b'\\' && *x != b'#'); }
    // few enough values to digest each: the two characters range over a window of the alphabet
    let base = match sym::choice(3) { 0 => b'-', 1 => b'Y', _ => b'8' };
    let w = sym::by_tier(3u8, 5);
    for x in &c { sym::assume(*x >= base && *x < base + w); }
    sym::fix(&c);
    let k1 = format_id("did:x:b", unsafe { std::str::from_utf8_unchecked(&c[..1]) });
    let k2 = format_id("did:x:b", unsafe { std::str::from_utf8_unchecked(&c) });
    let k3 = format_id("did:x:b", unsafe { std::str::from_utf8_unchecked(&c[1..]) });
    if c[0] == c[1] { return; }
    let kids = [(k1.as_str(), 5u8), (k2.as_str(), 6), (k3.as_str(), 7)];
    let e = enc(auth, &kids);
    let s = Secs::new(vec![secret(&k2, Kt::X, 6)]);
    match unpack(&e.pack(plain("1").as_bytes()), &dids(), &s) {
        Ok(_) => sym::reach(1),
        Err(k) => { sym::obs(k); sym::fail(40); }
    }
    c[0] = 0;
}
