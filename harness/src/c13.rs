use crate::{craft::*, fix::*, sym};
use askar_crypto::model;
use didcomm::did::*;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::*;
use serde_json::{json, Value};
use std::collections::HashMap;

const FWD: &str = "https://didcomm.org/routing/2.0/forward";
/// mediators: m one X key, q one P key, w two X keys and a P key
fn mediators() -> Vec<Who> { vec![Who::new("did:x:m").ka("1", Kt::X, 8), Who::new("did:x:q").ka("1", Kt::P, 9), Who::new("did:x:w").ka("1", Kt::X, 10).ka("2", Kt::X, 11).ka("3", Kt::P, 12)] }
/// ways to name a hop, and the keys its layer must be readable with
fn hop(i: u32) -> (&'static str, Vec<(&'static str, Kt, u8)>) {
    match i {
        0 => ("did:x:m#1", vec![("did:x:m#1", Kt::X, 8)]), 1 => ("did:x:q", vec![("did:x:q#1", Kt::P, 9)]),
        2 => ("did:x:w", vec![("did:x:w#1", Kt::X, 10), ("did:x:w#2", Kt::X, 11)]), 3 => ("did:x:w#3", vec![("did:x:w#3", Kt::P, 12)]),
        // the recipient itself as a hop, by key and by DID
        5 => ("did:x:b#1", vec![("did:x:b#1", Kt::X, 3)]), 6 => ("did:x:b", vec![("did:x:b#1", Kt::X, 3)]), _ => ("did:x:m", vec![("did:x:m#1", Kt::X, 8)]),
    }
}
fn all() -> Vec<(Kt, u8)> { vec![(Kt::X, 8), (Kt::P, 9), (Kt::X, 10), (Kt::X, 11), (Kt::P, 12), (Kt::X, 3), (Kt::X, 1)] }
fn headers() -> Option<HashMap<String, Value>> {
    match sym::choice(3) { 0 => None, 1 => Some([("expires".to_string(), Value::from(sym::byte() as u64))].into_iter().collect()), _ => Some([("a".to_string(), Value::String(sym::utf8(1))), ("b".to_string(), json!([1, {"x": null}]))].into_iter().collect()) }
}
/// peel every layer with the reference decryption
fn peel(p: &str, route: &[u32], last: &str, h: &Option<HashMap<String, Value>>, alg: u32) -> Option<Value> {
    let mut cur = p.to_string();
    for (i, r) in route.iter().enumerate() {
        let (_, keys) = hop(*r);
        let j = match Jwe::read(&cur) { Some(j) => j, None => { sym::fail(10); return None; } };
        let mut kids = j.kids(); kids.sort();
        sym::check(kids == keys.iter().map(|k| k.0).collect::<Vec<_>>(), 11);
        let hd = j.header().unwrap_or_default();
        sym::check(hd["alg"].as_str() == Some(ES) && hd["enc"].as_str() == Some(ce(alg).name()) && hd.get("skid").is_none(), 12);
        let mut pt = None;
        for (k, t, s) in &keys {
            let x = open(&j, k, *t, *s, None);
            sym::check(x.is_some() && (pt.is_none() || x == pt), 13);
            for (t2, s2) in if sym::tier() == 0 { { let i = i % 5; all()[i..i + 3].to_vec() } } else { all() } { if (t2, s2) != (*t, *s) { sym::check(open(&j, k, t2, s2, None).is_none(), 14); } }
            pt = x;
        }
        let next = if i + 1 < route.len() { hop(route[i + 1]).0 } else { last };
        let m: Message = match pt.and_then(|b| serde_json::from_slice(&b).ok()) { Some(m) => m, None => { sym::fail(15); return None; } };
        sym::check(m.type_ == FWD && m.typ == "application/didcomm-plain+json", 16);
        sym::check(m.body == json!({ "next": next }), 17);
        sym::check(!m.id.is_empty(), 18);
        sym::check(m.extra_headers == h.clone().unwrap_or_default(), 19);
        sym::check(m.from.is_none() && m.from_prior.is_none(), 20);
        let a = m.attachments.clone().unwrap_or_default();
        sym::check(a.len() == 1, 21);
        let v = match a.first().map(|a| &a.data) { Some(AttachmentData::Json { value }) => value.json.clone(), _ => { sym::fail(22); return None; } };
        match try_parse_forward(&m) { Some(f) => sym::check(f.next == next && f.forwarded_msg == v, 23), None => sym::fail(24) }
        cur = v.to_string();
    }
    serde_json::from_str(&cur).ok()
}
fn hops(n: u32) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    for i in 0..n as usize { let x = if i == 0 || sym::tier() > 0 { sym::choice(5) } else { (v[i - 1] + 1 + 2 * sym::choice(2)) % 5 }; v.push(x); }
    v
}
fn text() -> String { if sym::tier() == 0 { sym::ident(1) } else { sym::utf8(1) } }
/// packing towards a recipient whose service routes through 0..=2 (3) hops, optionally behind a mediator named by DID
pub fn onion() {
    let n = sym::choice(sym::by_tier(3, 4));
    let mut route = hops(n);
    let keys: Vec<&str> = route.iter().map(|r| hop(*r).0).collect();
    let via = sym::choice(3); // endpoint: a URL, or a mediator's DID whose service has no / one routing key of its own
    let to_kid = sym::flip();
    let alg = sym::choice(sym::by_tier(1, 3));
    let alg = if sym::tier() == 0 { n % 3 } else { alg };
    let h = if n == 1 { headers() } else { None };
    let mut ms = mediators();
    let own: Vec<&str> = if via == 2 { vec!["did:x:q#1"] } else { vec![] };
    if via > 0 { let m = ms.remove(0); ms.insert(0, m.svc(svc("did:x:m#svc", "http://m", None, &own))); }
    let b = Who::new("did:x:b").ka("1", Kt::X, 3).svc(svc("did:x:b#svc", if via > 0 { "did:x:m" } else { "http://b" }, None, &keys));
    let a = Who::new("did:x:a").ka("k", Kt::X, 1);
    let mut docs = vec![a.doc(), b.doc()]; for m in &ms { docs.push(m.doc()); }
    let d = Dids::new(docs); let s = Secs::new(a.secrets());
    let m = Message::build("i".into(), "t".into(), json!({"k": text()})).finalize();
    let auth = sym::flip();
    let to = if to_kid { "did:x:b#1" } else { "did:x:b" };
    let o = PackEncryptedOptions { forward: true, forward_headers: h.clone(), enc_alg_anon: anon_alg(alg), ..opts(true) };
    let from = if auth { Some("did:x:a") } else { None };
    let (p, md) = match run(m.pack_encrypted(to, from, None, &d, &s, &o)) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(1); return; } };
    // the same packing with forwarding off, from the same keys and randomness
    model::st().draws = 0;
    let (inner, md0) = match run(m.pack_encrypted(to, from, None, &d, &s, &PackEncryptedOptions { forward: false, ..o.clone() })) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(2); return; } };
    sym::check(md0.messaging_service.is_none() && md0.to_kids == md.to_kids && md0.from_kid == md.from_kid, 3);
    if via > 0 { route.insert(0, 4); }
    // routing keys used: the mediator's DID, then the recipient's routing keys
    if route.is_empty() { sym::check(p == inner, 4); sym::check(md.messaging_service.is_none(), 5); sym::reach(1); return; }
    let got = peel(&p, &route, to, &h, alg);
    // same randomness, so the same envelope: compare what does not depend on the number of earlier encryptions, then open both
    let iv: Value = serde_json::from_str(&inner).unwrap_or_default();
    match &got { Some(g) => sym::check(*g == iv, 6), None => sym::fail(7) }
    let rb = Secs::new(b.secrets());
    let t = got.map(|g| g.to_string()).unwrap_or_default();
    match run(Message::unpack(&t, &d, &rb, &UnpackOptions::default())) { Ok((u, _)) => sym::check(u == m, 8), Err(e) => { sym::obs(kcode(e.kind())); sym::fail(9); } }
    match &md.messaging_service { Some(x) => { sym::check(x.id == "did:x:b#svc", 25); sym::check(x.service_endpoint == if via > 0 { "http://m" } else { "http://b" }, 26); } None => sym::fail(27) }
    sym::reach(2 + route.len() as u32);
    if via > 0 { sym::reach(10 + via); }
}
/// the public wrapper: any recipient name, any JSON message
pub fn direct() {
    let n = 1 + sym::choice(sym::by_tier(2, 3));
    let route = hops(n);
    let keys: Vec<String> = route.iter().map(|r| hop(*r).0.to_string()).collect();
    let alg = if sym::tier() == 0 { n % 3 } else { sym::choice(3) };
    let long = n > 1 && sym::tier() == 0;
    let h = if long { None } else { headers() };
    let k = if long { 0 } else { sym::choice(2) as usize };
    let to = sym::utf8(k);
    let docs = mediators().iter().map(|m| m.doc()).collect();
    let d = Dids::new(docs);
    let v = match if long || sym::tier() == 0 && h.is_some() { 1 } else { sym::choice(5) } { 0 => json!({"protected": text(), "n": [1, null]}), 1 => Value::from(sym::byte() as u64), 2 => json!([]), 3 => Value::Null, _ => Value::String(text()) };
    match run(wrap_in_forward(&v.to_string(), h.as_ref(), &to, &keys, &anon_alg(alg), &d)) {
        Ok(p) => { let g = peel(&p, &route, &to, &h, alg); sym::check(g == Some(v), 30); sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(31); }
    }
}
/// mediators following the route with the library itself
pub fn relay() {
    let n = 1 + sym::choice(sym::by_tier(2, 3));
    let route = hops(n);
    let keys: Vec<&str> = route.iter().map(|r| hop(*r).0).collect();
    let ms = mediators();
    let b = Who::new("did:x:b").ka("1", Kt::P, 3).svc(svc("s", "http://b", None, &keys));
    let a = Who::new("did:x:a").ka("k", Kt::P, 1);
    let mut docs = vec![a.doc(), b.doc()]; let mut w = vec![]; for m in &ms { docs.push(m.doc()); w.extend(m.secrets()); }
    let d = Dids::new(docs); let s = Secs::new(a.secrets());
    let m = Message::build("i".into(), "t".into(), json!({"k": text()})).finalize();
    let auth = sym::flip();
    let to = if sym::flip() { "did:x:b#1" } else { "did:x:b" };
    let (p, md) = match run(m.pack_encrypted(to, if auth { Some("did:x:a") } else { None }, None, &d, &s, &opts(true))) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(40); return; } };
    let mut cur = p;
    for (i, r) in route.iter().enumerate() {
        // a mediator holding only this hop's keys
        let (_, ks) = hop(*r);
        let ws = Secs::new(w.iter().filter(|x| ks.iter().any(|k| k.0 == x.id)).cloned().collect());
        let next = if i + 1 < keys.len() { keys[i + 1] } else { to };
        let u = match run(Message::unpack(&cur, &d, &ws, &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false })) { Ok(u) => u, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(41); return; } };
        sym::check(u.1.anonymous_sender && u.1.encrypted && !u.1.authenticated && !u.1.re_wrapped_in_forward, 42);
        let f = match try_parse_forward(&u.0) { Some(f) => f, None => { sym::fail(43); return; } };
        sym::check(f.next == next, 44);
        // a hop cannot read the next layer
        let t = f.forwarded_msg.to_string();
        if i + 1 == keys.len() || !hop(route[i + 1]).1.iter().any(|k| ks.contains(k)) { sym::check(run(Message::unpack(&t, &d, &ws, &UnpackOptions::default())).is_err(), 45); }
        cur = t;
    }
    match run(Message::unpack(&cur, &d, &Secs::new(b.secrets()), &UnpackOptions::default())) { Ok((u, x)) => { sym::check(u == m, 46); sym::check(x.authenticated == auth && x.encrypted_to_kids == Some(md.to_kids), 47); sym::reach(1); } Err(e) => { sym::obs(kcode(e.kind())); sym::fail(48); } }
}
/// routes of up to six hops (the same hop may follow itself) and every layer with the given headers, whatever their number, names and values; packing and the wrapper alike
pub fn deep() {
    const R: [&[u32]; 11] = [&[0], &[1, 1], &[0, 0, 0], &[0, 1, 0, 1], &[2, 3, 2, 0, 0], &[4, 0, 1, 2, 3, 1], &[3, 2], &[1, 0, 4], &[5], &[6, 5, 0], &[1, 5, 6]];
    let route = R[sym::choice(11) as usize].to_vec();
    let keys: Vec<String> = route.iter().map(|r| hop(*r).0.to_string()).collect();
    let c = sym::ident(1);
    let h: Vec<(&str, Value)> = match sym::choice(7) {
        0 => vec![], 1 => vec![("n", Value::Null)], 2 => vec![("", json!(1))], 3 => vec![("Upper", json!(true)), ("upper", json!(false)), ("_x", json!([]))],
        4 => vec![("a", json!({})), ("b", Value::String(c.clone())), ("c", json!([null])), ("d", json!(-1)), ("e", json!("")), ("f", json!({"next": c.clone()})), ("g", json!(0))],
        5 => vec![("next", json!(c.clone())), ("lang", json!("en")), ("created", json!(7)), ("return_route", json!("all"))],
        _ => vec![("please_ack", json!([c.clone(), ""])), (" ", json!(" ")), ("delay_milli", json!(u64::MAX))],
    };
    let h: Option<HashMap<String, Value>> = Some(h.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let b = Who::new("did:x:b").ka("1", Kt::X, 3).svc(svc("s", "http://b", None, &keys.iter().map(|k| k.as_str()).collect::<Vec<_>>()));
    let mut docs = vec![b.doc()]; for m in &mediators() { docs.push(m.doc()); }
    let d = Dids::new(docs);
    let alg = route.len() as u32 % 3;
    if sym::flip() {
        let v = json!({"k": c});
        match run(wrap_in_forward(&v.to_string(), h.as_ref(), "did:x:b", &keys, &anon_alg(alg), &d)) { Ok(p) => { let g = peel(&p, &route, "did:x:b", &h, alg); sym::check(g == Some(v), 50); sym::reach(1); } Err(e) => { sym::obs(kcode(e.kind())); sym::fail(51); } }
    } else {
        let m = Message::build("i".into(), "t".into(), json!({"k": c})).finalize();
        let o = PackEncryptedOptions { forward: true, forward_headers: h.clone(), enc_alg_anon: anon_alg(alg), ..opts(true) };
        let (p, md) = match run(m.pack_encrypted("did:x:b#1", None, None, &d, &Secs::new(vec![]), &o)) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(52); return; } };
        sym::check(md.messaging_service.as_ref().map(|s| s.id == "s" && s.service_endpoint == "http://b") == Some(true), 53);
        let t = peel(&p, &route, "did:x:b#1", &h, alg).unwrap_or_default().to_string();
        match run(Message::unpack(&t, &d, &Secs::new(b.secrets()), &UnpackOptions::default())) { Ok((u, _)) => { sym::check(u == m, 54); sym::reach(2); } Err(_) => sym::fail(55) }
    }
}
