use crate::{craft::*, fix::*, sym};
use didcomm::protocols::routing::try_parse_forward;
use didcomm::*;
use serde_json::{json, Value};

const FWD: &str = "https://didcomm.org/routing/2.0/forward";

fn att(i: u32, j: &Value) -> Attachment {
    match i { 0 => Attachment::json(j.clone()).finalize(), 1 => Attachment::base64("QQ".into()).finalize(), 2 => Attachment::links(vec!["http://x".into()], "h".into()).finalize(), _ => Attachment::json(Value::from(77)).finalize() }
}
fn msg(ty: &str, body: Value, atts: Option<Vec<Attachment>>) -> Message {
    let mut m = Message::build("i".into(), ty.into(), body).finalize();
    m.attachments = atts;
    m
}
/// the type: the forward type with a symbolic byte at any position, cut or extended
pub fn types() {
    let n = FWD.len();
    const NEAR: [&str; 14] = ["did:sov:BzCbsNYhMrjHiqZDTUASHg;spec/routing/2.0/forward", "did:sov:BzCbsNYhMrjHiqZDTUASHg;spec/routing/1.0/forward", "http://didcomm.org/routing/2.0/forward", "https://didcomm.org/routing/1.0/forward", "https://didcomm.org/routing/2.1/forward", "https://didcomm.org/routing/3.0/forward", "https://www.didcomm.org/routing/2.0/forward", "https://didcomm.org/routing/2.0/forward/", "https://didcomm.org/routing/2.0/forward?x=1", "HTTPS://DIDCOMM.ORG/ROUTING/2.0/FORWARD", "https://didcomm.org/routing/2.0/Forward", "https://didcomm.org/routing/2.0/forward-sequence", "/routing/2.0/forward", "forward"];
    let k = sym::choice(n as u32 + 4) as usize;
    let t = if k == n + 3 { NEAR[sym::choice(14) as usize].to_string() } else if k < n { let c = sym::ascii(1); [&FWD[..k], c.as_str(), &FWD[k + 1..]].concat() }
        else if k == n { let c = sym::ascii(1); [FWD, c.as_str()].concat() }
        else if k == n + 1 { let c = sym::ascii(1); [c.as_str(), FWD].concat() }
        else { FWD[..sym::choice(n as u32 + 1) as usize].to_string() };
    let m = msg(&t, json!({"next": "did:x:n"}), Some(vec![att(0, &json!({"a": 1}))]));
    let is = t.as_bytes() == FWD.as_bytes();
    match try_parse_forward(&m) {
        Some(f) => { sym::check(is, 1); sym::check(f.next == "did:x:n" && f.forwarded_msg == json!({"a": 1}) && *f.msg == m, 2); sym::reach(1); }
        None => { sym::check(!is, 3); sym::reach(2); }
    }
}
fn leaf() -> Value { match sym::choice(4) { 0 => Value::Null, 1 => Value::Bool(sym::flip()), 2 => Value::from(sym::byte() as u64), _ => Value::String(sym::utf8(sym::by_tier(2, 3))) } }
fn obj(k: &str, v: Value) -> Value { let mut m = serde_json::Map::new(); m.insert(k.to_string(), v); Value::Object(m) }
/// the body: any shape, the next value any JSON
pub fn bodies() {
    let (b, want): (Value, Option<String>) = match sym::choice(8) {
        0 => (json!({}), None),
        1 => { let v = leaf(); let w = v.as_str().map(|s| s.to_string()); (obj("next", v), w) }
        2 => (obj("next", Value::Array(vec![Value::String(sym::ident(1))])), None),
        3 => (obj("next", obj("next", Value::String(sym::ident(1)))), None),
        4 => { let k = ["Next", "nex", "next ", "nexta", "", "to"][sym::choice(6) as usize]; (obj(k, Value::String(sym::ident(1))), None) }
        5 => (leaf(), None),
        6 => (Value::Array(vec![obj("next", leaf())]), None),
        _ => { let s = sym::utf8(sym::choice(4) as usize); let mut o = obj("next", Value::String(s.clone())); o["other"] = leaf(); (o, Some(s)) }
    };
    let p = leaf();
    let m = msg(FWD, b, Some(vec![att(0, &p)]));
    match (try_parse_forward(&m), want) {
        (Some(f), Some(w)) => { sym::check(f.next == w, 10); sym::check(f.forwarded_msg == p, 11); sym::reach(1); }
        (None, None) => sym::reach(2),
        (Some(_), None) => sym::fail(12),
        (None, Some(_)) => sym::fail(13),
    }
}
/// the attachments: none, empty, up to 3 of any kind
pub fn attachments() {
    let n = sym::choice(5);
    let p = match sym::choice(3) { 0 => leaf(), 1 => obj("protected", leaf()), _ => Value::Array(vec![leaf(), Value::Null]) };
    let (a, want) = if n == 0 { (None, false) } else { let ks: Vec<u32> = (1..n).map(|_| sym::choice(4)).collect(); let w = ks.first(); let w = if w == Some(&0) { 1 } else if w == Some(&3) { 2 } else { 0 }; (Some((ks.iter().map(|k| att(*k, &p)).collect::<Vec<_>>(), w)), w != 0) };
    let (a, w) = match a { Some((a, w)) => (Some(a), w), None => (None, 0) };
    let m = msg(FWD, json!({"next": "n"}), a);
    match try_parse_forward(&m) {
        Some(f) => { sym::check(want, 20); sym::check(f.forwarded_msg == if w == 1 { p } else { Value::from(77) }, 21); sym::check(f.next == "n", 22); sym::reach(1); }
        None => { sym::check(!want, 23); sym::reach(2); }
    }
}
/// a parsed forward does not depend on anything else in the message, and reading it from JSON gives the same
pub fn read() {
    let mut m = msg(FWD, json!({"next": "did:x:n#k"}), Some(vec![att(0, &json!({"c": "v"}))]));
    let s = sym::utf8(sym::by_tier(1, 2));
    match sym::choice(8) {
        0 => m.id = s, 1 => m.typ = s, 2 => m.from = Some(s), 3 => m.to = Some(vec![s]), 4 => m.thid = Some(s),
        5 => { m.extra_headers.insert("next".into(), Value::String(s)); }
        6 => { if let Some(a) = m.attachments.as_mut() { match sym::choice(8) { 0 => a[0].id = Some(s), 1 => a[0].media_type = Some(s), 2 => a[0].format = Some(s), 3 => a[0].filename = Some(s), 4 => a[0].lastmod_time = Some(0), 5 => a[0].byte_count = Some(1), 6 => { if let AttachmentData::Json { value } = &mut a[0].data { value.jws = Some(s) } } _ => a[0].description = Some(s) } } }
        _ => m.from_prior = Some(s),
    }
    let j = serde_json::to_string(&m).unwrap_or_default();
    let m2: Message = match serde_json::from_str(&j) { Ok(m) => m, Err(_) => { sym::fail(30); return; } };
    for x in [&m, &m2] { match try_parse_forward(x) { Some(f) => sym::check(f.next == "did:x:n#k" && f.forwarded_msg == json!({"c": "v"}), 31), None => sym::fail(32) } }
    sym::reach(1);
}

/// what the wallet (b's) knows about the name in next: 0 key held, 1 DID with a held key, 2 key not held, 3 DID without held key, 4 unresolvable DID, 5 DID without keys, 6 DID whose only held key is an authentication key, 7 no DID at all
fn next(i: u32) -> (&'static str, u32) {
    match i { 0 => ("did:x:b#1", 1), 1 => ("did:x:b", 1), 2 => ("did:x:b#9", 0), 3 => ("did:x:c", 0), 4 => ("did:x:u", 2), 5 => ("did:x:e", 0), 6 => ("did:x:s", 0), 7 => ("did:x:c#1", 0), 8 => ("did:x:b#2", 1), _ => ("did:x:p", 1) }
}
fn b() -> Who { Who::new("did:x:b").ka("1", Kt::X, 3).ka("2", Kt::P, 4).ka("9", Kt::X, 5) }
fn world(auth_only: bool) -> (Dids, Secs) {
    let a = Who::new("did:x:a").ka("k", Kt::X, 1).auth("s", Kt::Ed, 2);
    let c = Who::new("did:x:c").ka("1", Kt::X, 6);
    let e = Who::new("did:x:e");
    let s = Who::new("did:x:s").ka("1", Kt::X, 7).auth("2", Kt::Ed, 8);
    // a DID with two keys of which only the second is held
    let p = Who::new("did:x:p").ka("1", Kt::X, 9).ka("2", Kt::X, 10);
    let mut w: Vec<_> = b().secrets().into_iter().filter(|x| x.id != "did:x:b#9").collect();
    w.push(p.secrets().remove(1));
    if auth_only { w.push(s.secrets().remove(1)); }
    (Dids::new(vec![a.doc(), b().doc(), c.doc(), e.doc(), s.doc(), p.doc()]), Secs::new(w))
}
fn anon(text: &str, eph: u8, c: Ce) -> String { let mut e = Enc::new(Kt::X, c, &[("did:x:b#1", 3)]); e.eph = eph; e.pack(text.as_bytes()) }
fn auth(text: &str, eph: u8) -> String { let mut e = Enc::new(Kt::X, Ce::Cbc, &[("did:x:b#1", 3)]).from("did:x:a#k", 1); e.eph = eph; e.pack(text.as_bytes()) }
fn signed(text: &str) -> String { Jws::new(Kt::Ed, 2, "did:x:a#s", text.as_bytes()).json() }

/// when unpacking replaces a forward by what it carries
pub fn unwrap() {
    let (nx, held) = next(sym::choice(10));
    let (d, s) = world(true);
    // the payload
    let c = sym::ident(1);
    let inner_text = plain(&["\"", c.as_str(), "\""].concat());
    let kind = sym::choice(4);
    let payload: Value = match kind { 0 => serde_json::from_str(&anon(&inner_text, 210, Ce::Gcm)), 1 => serde_json::from_str(&auth(&inner_text, 211)), 2 => serde_json::from_str(&inner_text), _ => Ok(json!({"x": c.clone()})) }.unwrap_or_default();
    let mut f = Message::build("f".into(), FWD.into(), json!({"next": nx})).finalize();
    f.attachments = Some(vec![Attachment::json(payload.clone()).finalize()]);
    let ft = serde_json::to_string(&f).unwrap_or_default();
    // how the forward itself arrives
    let how = sym::choice(6);
    let t = match how { 0 | 5 => anon(&ft, 200, ce(sym::choice(3))), 1 => auth(&ft, 201), 2 => signed(&ft), 3 => ft.clone(), _ => anon(&signed(&ft), 202, Ce::Xc) };
    // 5: the anonymous envelope in which another forward for this wallet carries it
    let t = if how == 5 { let mut g = Message::build("g".into(), FWD.into(), json!({"next": "did:x:b"})).finalize(); g.attachments = Some(vec![Attachment::json(serde_json::from_str(&t).unwrap_or_default()).finalize()]); anon(&serde_json::to_string(&g).unwrap_or_default(), 205, Ce::Cbc) } else { t };
    let on = sym::flip();
    let o = UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: on };
    let direct = how == 0 || how == 5;
    let want = on && direct && held == 1;
    match run(Message::unpack(&t, &d, &s, &o)) {
        Ok((m, md)) => {
            sym::check(!(on && direct && held == 2), 40);
            if want {
                sym::check(kind < 3, 41);
                sym::check(m.body == Value::String(c) && md.re_wrapped_in_forward, 42);
                sym::check(md.authenticated == (kind == 1), 43);
                sym::reach(1 + kind);
            } else {
                // the forward itself (or, option off, the outer of the two)
                sym::check(md.re_wrapped_in_forward == (how == 5 && on), 44);
                if how == 5 && !on { sym::check(m.id == "g" && try_parse_forward(&m).map(|x| x.next) == Some("did:x:b".to_string()), 45); sym::reach(10); }
                else { sym::check(m == f, 46); match try_parse_forward(&m) { Some(p) => sym::check(p.next == nx && p.forwarded_msg == payload, 47), None => sym::fail(48) } sym::reach(11 + how); }
            }
        }
        Err(e) => {
            sym::obs(kcode(e.kind()));
            if on && direct && held == 2 { sym::check(e.kind() == error::ErrorKind::DIDNotResolved, 49); sym::reach(20); }
            else { sym::check(want && kind == 3 && e.kind() == error::ErrorKind::Malformed, 50); sym::reach(21); }
        }
    }
}
/// almost-forwards are returned as they are
pub fn almost() {
    let (d, s) = world(false);
    let inner: Value = serde_json::from_str(&anon(&plain("1"), 210, Ce::Gcm)).unwrap_or_default();
    let mut f = Message::build("f".into(), FWD.into(), json!({"next": "did:x:b"})).finalize();
    f.attachments = Some(vec![Attachment::json(inner.clone()).finalize()]);
    let c = sym::ident(1);
    let mut same = false;
    match sym::choice(7) {
        0 => { let k = sym::choice(FWD.len() as u32) as usize; f.type_ = [&FWD[..k], c.as_str(), &FWD[k + 1..]].concat(); same = f.type_.as_bytes() == FWD.as_bytes(); }
        1 => f.body = json!({ "next": 1 }), 2 => f.body = json!({ "nxt": "did:x:b" }), 3 => f.body = json!(["next", "did:x:b"]),
        4 => f.attachments = None, 5 => f.attachments = Some(vec![]),
        _ => { let mut a = vec![Attachment::base64("QQ".into()).finalize()]; a.append(f.attachments.as_mut().unwrap_or(&mut vec![])); f.attachments = Some(a); }
    }
    let t = anon(&serde_json::to_string(&f).unwrap_or_default(), 200, Ce::Cbc);
    match run(Message::unpack(&t, &d, &s, &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: true })) {
        Ok((m, md)) => { sym::check(md.re_wrapped_in_forward == same, 60); sym::check(if same { m.body == Value::from(1) } else { m == f }, 61); sym::reach(1 + same as u32); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(62); }
    }
}

/// whatever else a forward says (sender, thread, times, headers, further attachments, attributes of the attachment), it is unwrapped all the same, and what it says is not mixed into the result
pub fn dressed() {
    let (d, s) = world(false);
    let c = sym::ident(1);
    let auth_ = sym::flip();
    let text = plain(&["\"", c.as_str(), "\""].concat());
    let inner: Value = serde_json::from_str(&if auth_ { auth(&text, 211) } else { anon(&text, 210, Ce::Gcm) }).unwrap_or_default();
    let mut f = Message::build("f".into(), FWD.into(), json!({"next": "did:x:b"})).finalize();
    let mut a = Attachment::json(inner).finalize();
    match sym::choice(20) {
        0 => f.from = Some("did:x:a".into()), 1 => f.from = Some("did:x:zz".into()), 2 => f.to = Some(vec!["did:x:b".into()]), 3 => f.to = Some(vec!["did:x:m".into()]), 4 => f.to = Some(vec![]), 5 => f.thid = Some(c.clone()), 6 => f.pthid = Some(c.clone()),
        7 => f.created_time = Some(u64::MAX), 8 => f.expires_time = Some(0), 9 => { f.extra_headers.insert("please_ack".into(), json!([])); } 10 => { f.extra_headers.insert("next".into(), json!("did:x:c")); }
        11 => f.body = json!({"next": "did:x:b", "x": c.clone()}), 12 => f.body = json!({"next": "did:x:b", "messages": []}), 13 => a.id = Some(c.clone()), 14 => a.media_type = Some("application/didcomm-encrypted+json".into()), 15 => a.format = Some(c.clone()), 16 => a.byte_count = Some(0),
        17 => { if let AttachmentData::Json { value } = &mut a.data { value.jws = Some(c.clone()) } } 18 => f.id = String::new(), _ => (),
    }
    let mut v = vec![a];
    for _ in 0..sym::choice(3) { v.push(att(sym::choice(4), &json!({"protected": "x"}))); }
    f.attachments = Some(v);
    let t = anon(&serde_json::to_string(&f).unwrap_or_default(), 200, Ce::Cbc);
    let on = sym::flip();
    match run(Message::unpack(&t, &d, &s, &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: on })) {
        Ok((m, md)) if on => { sym::check(md.re_wrapped_in_forward && m == serde_json::from_str::<Message>(&text).unwrap_or_else(|_| f.clone()), 70); sym::check(md.authenticated == auth_ && md.encrypted_from_kid.is_some() == auth_, 71); sym::reach(1); }
        Ok((m, md)) => { sym::check(!md.re_wrapped_in_forward && m == f, 72); sym::reach(2); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(73); }
    }
}
