use crate::{fix::*, gen, sym};
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::*;
use serde_json::{json, Value};
use std::collections::HashMap;

fn hops() -> (Dids, Secs) {
    let m = Who::new("did:x:m").ka("k", Kt::X, 5).ka("l", Kt::X, 6).ka("p", Kt::P, 7); let n = Who::new("did:x:n").ka("p", Kt::P, 8); let z = Who::new("did:x:z").auth("s", Kt::Ed, 9);
    let mut y = Who::new("did:x:y").ka("k", Kt::X, 10).doc(); y.verification_method.clear();
    (Dids::new(vec![m.doc(), n.doc(), z.doc(), y]), Secs::new([m.secrets(), n.secrets(), z.secrets()].concat()))
}
/// with no routing keys every message comes back as it was
pub fn empty() {
    let s = match sym::choice(2) { 0 => sym::utf8(sym::by_tier(3, 4)), _ => gen::format_s("{\"a\":", &sym::ascii(2)) };
    let (d, _) = hops();
    let mut h = HashMap::new(); h.insert("n".to_string(), json!(1));
    let to = ["did:x:b", "did:x:b#k", "", "x"][sym::choice(4) as usize];
    match run(wrap_in_forward(&s, if sym::flip() { Some(&h) } else { None }, to, &vec![], &anon_alg(sym::choice(3)), &d)) { Ok(x) => { sym::check(x == s, 1); sym::check(d.calls.get() == 0, 2); sym::reach(1); } Err(e) => { sym::obs(kcode(e.kind())); sym::fail(3); } }
}
/// a routing key: (text, its DID, how it must fare: 0 usable, otherwise the error kind)
fn rk(i: u32) -> (&'static str, u64) { match i { 0 => ("did:x:m", 0), 1 => ("did:x:m#l", 0), 2 => ("did:x:n", 0), 3 => ("did:x:n#p", 0), 4 => ("did:x:q#k", 1), 5 => ("did:x:m#nope", 2), 6 => ("did:x:z", 2), 7 => ("did:x:y", 8), 8 => ("did:x:q", 1), 9 => ("did:x:y#k", 8), 10 => ("", 1), 11 => ("not a did", 1), _ => ("did:x:m#", 2) } }
/// every list of routing keys up to the bound: the hop nearest the recipient is wrapped first, so it decides which error is reported
pub fn lists() {
    let n = sym::choice(sym::by_tier(3, 4)) as usize;
    let k: Vec<(&str, u64)> = (0..n).map(|_| rk(if sym::tier() == 0 { [0, 1, 2, 3, 4, 5, 6, 7, 8, 10][sym::choice(10) as usize] } else { sym::choice(13) })).collect();
    let (d, s) = hops();
    let c = sym::ident(1);
    let msg = ["{\"m\":\"", c.as_str(), "\"}"].concat();
    let to = if sym::flip() { "did:x:b" } else { "did:x:b#k" };
    let keys: Vec<String> = k.iter().map(|x| x.0.to_string()).collect();
    let r = run(wrap_in_forward(&msg, None, to, &keys, &anon_alg(sym::choice(sym::by_tier(1, 3))), &d));
    let bad = k.iter().rev().find(|x| x.1 != 0);
    let q = match (r, bad) {
        (Ok(q), None) => q,
        (Err(e), Some(b)) => { sym::obs(kcode(e.kind())); sym::check(kcode(e.kind()) == b.1, 11); sym::reach(1); return; }
        (Ok(_), Some(_)) => { sym::fail(12); return; }
        (Err(e), None) => { sym::obs(kcode(e.kind())); sym::fail(13); return; }
    };
    if n == 0 { sym::check(q == msg, 14); return; }
    // peel it hop by hop
    let mut q = q;
    for i in 0..n {
        let (m, md) = match run(Message::unpack(&q, &d, &s, &UnpackOptions { expect_decrypt_by_all_keys: true, unwrap_re_wrapping_forward: false })) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(15); return; } };
        sym::check(md.encrypted && md.anonymous_sender && !md.authenticated, 16);
        let to_k = md.encrypted_to_kids.unwrap_or_default();
        sym::check(!to_k.is_empty() && if keys[i].contains('#') { to_k.len() == 1 && to_k[0] == keys[i] } else { to_k.iter().all(|x| x.starts_with(&keys[i])) }, 17);
        let f = match try_parse_forward(&m) { Some(f) => f, None => { sym::fail(18); return; } };
        sym::check(f.next == if i + 1 < n { keys[i + 1].as_str() } else { to }, 19);
        q = serde_json::to_string(&f.forwarded_msg).unwrap_or_default();
    }
    sym::check(q == msg, 20);
    sym::reach(2);
}
/// every text as the message: JSON is carried, anything else is Malformed, nothing panics
pub fn texts() {
    let s = match sym::choice(4) { 0 => sym::utf8(sym::by_tier(2, 3)), 1 => ["{\"a\":", sym::ascii(2).as_str(), "}"].concat(), 2 => ["[true", sym::ascii(2).as_str(), "{}]"].concat(), _ => { let t = "{\"a\":{\"b\":[true,null,1.5e2]}}"; t[..sym::choice(t.len() as u32 + 1) as usize].to_string() } };
    let (d, w) = hops();
    let v: Option<Value> = serde_json::from_str(&s).ok();
    match (run(wrap_in_forward(&s, None, "did:x:b", &vec!["did:x:m#k".to_string()], &anon_alg(0), &d)), v) {
        (Ok(q), Some(v)) => match run(Message::unpack(&q, &d, &w, &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false })) { Ok((m, _)) => { sym::check(try_parse_forward(&m).map(|f| f.forwarded_msg == v) == Some(true), 31); sym::reach(1); } Err(_) => sym::fail(32) },
        (Err(e), None) => { sym::check(e.kind() == ErrorKind::Malformed, 33); sym::reach(2); }
        (Ok(_), None) => sym::fail(34),
        (Err(e), Some(_)) => { sym::obs(kcode(e.kind())); sym::fail(35); }
    }
}
/// any characters in a routing key and in the recipient
pub fn names() {
    let c = sym::ident(sym::by_tier(1, 2));
    let (d, s) = hops();
    let (key, to) = match sym::choice(5) { 0 => ([c.as_str(), "did:x:m#k"].concat(), "did:x:b".to_string()), 1 => (["did:x:m#k", c.as_str()].concat(), "did:x:b".to_string()), 2 => (["did:x:m", c.as_str(), "k"].concat(), "did:x:b".to_string()), 3 => (c.clone(), "did:x:b".to_string()), _ => ("did:x:m#k".to_string(), ["did:", c.as_str()].concat()) };
    let want = if key == "did:x:m#k" { 0 } else if key.split('#').next() == Some("did:x:m") { 2 } else { 1 };
    match run(wrap_in_forward("{}", None, &to, &vec![key], &anon_alg(0), &d)) {
        Ok(q) => { sym::check(want == 0, 41); match run(Message::unpack(&q, &d, &s, &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false })) { Ok((m, _)) => { sym::check(try_parse_forward(&m).map(|f| f.next == to) == Some(true), 42); sym::reach(1); } Err(_) => sym::fail(43) } }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(kcode(e.kind()) == want, 44); sym::reach(2); }
    }
}
/// headers given are on every forward message of the onion
pub fn headers() {
    let c = sym::ident(1); let n = sym::byte() as u64;
    let (d, s) = hops();
    let mut h = HashMap::new();
    for i in 0..sym::choice(3) { h.insert(["xa", "xb"][i as usize].to_string(), gen::body(&c, n)); }
    let keys: Vec<String> = ["did:x:m#k", "did:x:n"][..1 + sym::choice(2) as usize].iter().map(|x| x.to_string()).collect();
    let mut q = match run(wrap_in_forward("{}", Some(&h), "did:x:b", &keys, &anon_alg(0), &d)) { Ok(q) => q, Err(_) => { sym::fail(51); return; } };
    for _ in &keys { match run(Message::unpack(&q, &d, &s, &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false })) { Ok((m, _)) => { sym::check(m.extra_headers == h, 52); q = match try_parse_forward(&m) { Some(f) => f.forwarded_msg.to_string(), None => { sym::fail(53); return; } }; sym::reach(1); } Err(_) => { sym::fail(54); return; } } }
}
