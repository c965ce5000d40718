use crate::{craft::*, fix::*, gen, sym};
use didcomm::algorithms::*;
use didcomm::*;

use crate::fix::opts;
/// independent syntax rule: "did", then at least two colon-separated parts
fn ok_did(s: &str) -> bool { let b = s.as_bytes(); let mut n = 0; for c in b { if *c == b':' { n += 1; } } n >= 2 && b.len() >= 4 && b[0] == b'd' && b[1] == b'i' && b[2] == b'd' && b[3] == b':' }
fn did_part(s: &str) -> &str { match s.find('#') { Some(i) => &s[..i], None => s } }

/// `good` = the arguments satisfy every rule: then the outcome is that of the (failing) resolver, otherwise IllegalArgument with no resolver consulted
fn judge(r: std::result::Result<(), ErrorKind>, d: &Dids, s: &Secs, good: bool) {
    match r {
        Ok(()) => sym::check(good, 1),
        Err(k) => {
            sym::obs(kcode(k));
            if good { sym::check(kcode(k) != 9, 2); sym::check(kcode(k) == 1, 3); sym::check(d.calls.get() > 0, 4); sym::reach(1); }
            else { sym::check(kcode(k) == 9, 5); sym::check(d.calls.get() == 0 && s.calls.get() == 0, 6); sym::reach(2); }
        }
    }
}
use didcomm::error::ErrorKind;
fn arg() -> String {
    let n = sym::by_tier(7, 9);
    match sym::choice(4) {
        // fully symbolic short strings
        0 => { let k = sym::choice(sym::by_tier(6, 7)); sym::ascii(k as usize) }
        // "did:" followed by symbolic characters
        1 => { let k = sym::choice(sym::by_tier(5, 7)); let mut s = String::from("did:"); s.push_str(&sym::ascii(k as usize)); s }
        // well-formed DID URL with one symbolic byte (any UTF-8 replacement) at each position
        2 => { let t = "did:x:ab#k1"; let p = sym::choice(t.len() as u32 + 1) as usize; let mut s = String::from(&t[..p]); s.push_str(&sym::utf8(1)); if p < t.len() { s.push_str(&t[p + 1..]); } s }
        // one symbolic character inserted in front, truncations
        _ => { let t = "did:x:ab"; let p = sym::choice(t.len() as u32 + 1) as usize; let mut s = String::new(); if sym::flip() { s.push_str(&sym::ascii(1)); } s.push_str(&t[p..]); let _ = n; s }
    }
}
/// syntax of to / from / sign_by
pub fn syntax() {
    let a = arg();
    let d = Dids::new(vec![]); let s = Secs::new(vec![]);
    let m = gen::message(0, "", 0);
    let good = ok_did(&a);
    let which = sym::choice(4);
    let r = match which {
        0 => run(m.pack_encrypted(&a, None, None, &d, &s, &opts(true))).map(|_| ()),
        1 => run(m.pack_encrypted("did:x:b", Some(&a), None, &d, &s, &opts(true))).map(|_| ()),
        2 => run(m.pack_encrypted("did:x:b", Some("did:x:a#1"), Some(&a), &d, &s, &opts(false))).map(|_| ()),
        _ => run(m.pack_signed(&a, &d, &s)).map(|_| ()),
    };
    judge(r.map_err(|e| e.kind()), &d, &s, good);
    sym::reach(10 + which);
}
fn did(k: u32) -> String {
    let mut s = String::from("did:x:");
    s.push_str(&sym::ascii(k as usize));
    s
}
/// to header versus the recipient, from header versus the sender
pub fn headers() {
    let d = Dids::new(vec![]); let s = Secs::new(vec![]);
    let mut m = gen::message(0, "", 0);
    let mut good = true;
    let k = sym::choice(2);
    if k == 0 {
        let mut to = did(sym::by_tier(1, 2)); 
        if sym::flip() { to.push_str("#k"); }
        let n = [0, 1, 2, 3, 6][sym::choice(5) as usize];
        let l: Vec<String> = (0..n).map(|i| if i == 0 { did(1) } else if i == 1 { let mut x = did(1); x.push_str("#k"); x } else if i == 5 { did(1) } else { String::from("did:x:") }).collect();
        let has = l.iter().any(|x| x == did_part(&to));
        if sym::flip() { m.to = Some(l); good = has; }
        let from = if sym::flip() { Some("did:x:a") } else { None };
        let sign = if sym::flip() { Some("did:x:s#1") } else { None };
        m.from = if sym::flip() { Some("did:x:a".into()) } else { None };
        judge(run(m.pack_encrypted(&to, from, sign, &d, &s, &opts(true))).map(|_| ()).map_err(|e| e.kind()), &d, &s, good);
    } else {
        let mut from = did(sym::by_tier(1, 2)); 
        if sym::flip() { from.push_str("#k"); }
        let has = sym::flip();
        let mf = match sym::choice(4) { 0 => String::new(), 1 => from.clone(), 2 => "did:x".into(), _ => did(1) };
        if has { good = mf == did_part(&from); m.from = Some(mf); }
        let given = sym::flip();
        if !given { good = true; }
        if sym::flip() { m.to = Some(vec!["did:x:b".into()]); }
        judge(run(m.pack_encrypted("did:x:b#z", if given { Some(&from) } else { None }, None, &d, &s, &opts(true))).map(|_| ()).map_err(|e| e.kind()), &d, &s, good);
    }
    sym::reach(10 + k);
}
/// accepted arguments really pack: the rules reject nothing else
pub fn accepted() {
    let c = sym::ident(1);
    sym::assume(c != "#");
    let mut bd = String::from("did:x:b"); bd.push_str(&c);
    let mut ad = String::from("did:y:a"); ad.push_str(&c);
    let b = Who::new(&bd).ka("1", Kt::X, 3);
    let a = Who::new(&ad).ka("k", Kt::X, 1).auth("s", Kt::Ed, 2);
    let d = Dids::new(vec![a.doc(), b.doc()]); let s = Secs::new(a.secrets());
    let mut m = gen::message(0, "", 0);
    match sym::choice(3) { 0 => {} 1 => m.to = Some(vec![bd.clone()]), _ => m.to = Some(vec!["did:q:0".into(), bd.clone()]) }
    if sym::flip() { m.from = Some(ad.clone()); }
    let to = if sym::flip() { b.ka[0].0.clone() } else { bd.clone() };
    let from = match sym::choice(3) { 0 => None, 1 => Some(ad.clone()), _ => Some(a.ka[0].0.clone()) };
    let sign = match sym::choice(3) { 0 => None, 1 => Some(ad.clone()), _ => Some(a.auth[0].0.clone()) };
    match run(m.pack_encrypted(&to, from.as_deref(), sign.as_deref(), &d, &s, &opts(true))) { Ok(_) => sym::reach(1), Err(e) => { sym::obs(kcode(e.kind())); sym::fail(1) } }
}
