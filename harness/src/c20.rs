use crate::{craft::*, fix::*, gen, sym};
use didcomm::*;
use serde_json::{json, Map, Value};

fn js(o: &mut String, v: &str) { o.push('"'); for c in v.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c => o.push(c) } } o.push('"'); }

/// What the serialized plaintext must contain, independently of the implementation: exactly these members.
fn expect(m: &Message) -> Value {
    let mut o = Map::new();
    o.insert("id".into(), Value::String(m.id.clone()));
    o.insert("typ".into(), "application/didcomm-plain+json".into());
    o.insert("type".into(), Value::String(m.type_.clone()));
    o.insert("body".into(), m.body.clone());
    if let Some(x) = &m.from { o.insert("from".into(), Value::String(x.clone())); }
    if let Some(x) = &m.to { o.insert("to".into(), Value::Array(x.iter().map(|s| Value::String(s.clone())).collect())); }
    if let Some(x) = &m.thid { o.insert("thid".into(), Value::String(x.clone())); }
    if let Some(x) = &m.pthid { o.insert("pthid".into(), Value::String(x.clone())); }
    for (k, v) in &m.extra_headers { o.insert(k.clone(), v.clone()); }
    if let Some(x) = m.created_time { o.insert("created_time".into(), Value::from(x)); }
    if let Some(x) = m.expires_time { o.insert("expires_time".into(), Value::from(x)); }
    if let Some(x) = &m.from_prior { o.insert("from_prior".into(), Value::String(x.clone())); }
    if let Some(x) = &m.attachments { o.insert("attachments".into(), Value::Array(x.iter().map(|_| Value::Null).collect())); }
    Value::Object(o)
}
/// the wire form has exactly the members set, under their specified names; reading it back gives the message
fn check_wire(m: &Message) {
    let d = Dids::new(vec![]);
    let p = match run(m.pack_plaintext(&d)) { Ok(p) => p, Err(_) => { sym::fail(1); return; } };
    let v: Value = match serde_json::from_str(&p) { Ok(v) => v, Err(_) => { sym::fail(2); return; } };
    let e = expect(m);
    let (vo, eo) = (v.as_object().unwrap(), e.as_object().unwrap());
    sym::check(vo.len() == eo.len(), 3);
    for (k, x) in eo {
        if k == "attachments" { sym::check(vo.get(k).and_then(|a| a.as_array()).map(|a| a.len()) == x.as_array().map(|a| a.len()), 4); continue; }
        sym::check(vo.get(k) == Some(x), 5);
    }
    match serde_json::from_str::<Message>(&p) { Ok(u) => sym::check(u == *m, 6), Err(_) => sym::fail(7) }
    sym::obs_bytes(p.as_bytes());
}
/// every subset of optional members
pub fn wire() {
    let mut mask = 0; for i in 0..10 { if sym::flip() { mask |= 1 << i; } }
    let s = sym::ident(1); let n = sym::byte() as u64;
    check_wire(&gen::message(mask, &s, n));
    sym::reach(1);
}
/// numbers near every integer limit, arbitrary text, bodies
pub fn values() {
    let k = sym::choice(4);
    let m = match k {
        0 => { let n = gen::num(); let mut m = gen::message(0, "", 0); m.created_time = Some(n); m.expires_time = if sym::flip() { Some(n ^ 1) } else { None }; m }
        1 => { let s = sym::utf8(sym::by_tier(2, 3)); let mut m = gen::message(0, "", 0); m.thid = Some(s); m }
        2 => { let s = sym::utf8(1); let n = gen::num(); let mut m = gen::message(0, "", 0); m.body = gen::body(&s, n); m }
        _ => { let s = sym::utf8(1); let n = sym::byte() as u64; let mut m = gen::message(0, "", 0); m.extra_headers.insert("zz".into(), gen::body(&s, n)); m.extra_headers.insert("typ2".into(), gen::body(&s, n)); m }
    };
    check_wire(&m);
    sym::reach(1 + k);
}
/// any two members each empty, of one symbolic value or of several, the values independent of one another
pub fn edges() {
    let mut m = Message::build("i".into(), "t".into(), Value::Null).finalize();
    let f = sym::choice(11); let g = sym::choice(11);
    sym::assume(f < g);
    let (v, w) = (sym::choice(3), sym::choice(3));
    gen::edge(&mut m, f, v); gen::edge(&mut m, g, w);
    check_wire(&m);
    sym::reach(1);
}
/// the builder yields exactly what was given, in any order of calls, repeated calls accumulate for to/attachments
pub fn builder() {
    let s = sym::ident(1); let n = sym::byte() as u64;
    let a1 = gen::attachment(0, 1, &s, n); let a2 = gen::attachment(1, 0, &s, n); let a3 = gen::attachment(2, 0, &s, n);
    let len = sym::choice(3) as usize;
    let mut b = Message::build(gen::format_s("i", &s), gen::format_s("t", &s), Value::String(s.clone()));
    let mut to: Option<Vec<String>> = None; let mut at: Option<Vec<Attachment>> = None;
    let (mut th, mut pt, mut fr, mut fp, mut ct, mut et) = (None, None, None, None, None, None);
    let mut hs: Vec<(String, Value)> = vec![];
    for step in 0..sym::by_tier(3, 4) {
        let x = sym::ascii(len); let time = sym::u64v();
        match sym::choice(14) {
            0 => { b = b.to(x.clone()); to.get_or_insert(vec![]).push(x); }
            1 => { b = b.to_many(vec![x.clone(), "e".into(), x.clone()]); let v = to.get_or_insert(vec![]); v.push(x.clone()); v.push("e".into()); v.push(x); }
            2 => { b = b.attachment(a1.clone()); at.get_or_insert(vec![]).push(a1.clone()); }
            3 => { b = b.attachments(vec![a2.clone(), a3.clone()]); let v = at.get_or_insert(vec![]); v.push(a2.clone()); v.push(a3.clone()); }
            4 => { b = b.thid(x.clone()); th = Some(x); }
            5 => { b = b.pthid(x.clone()); pt = Some(x); }
            6 => { b = b.from(x.clone()); fr = Some(x); }
            7 => { b = b.from_prior(x.clone()); fp = Some(x); }
            8 => { b = b.created_time(time); ct = Some(time); }
            9 => { b = b.expires_time(time); et = Some(time); }
            10 => { let k = if step == 1 { "h1" } else { "h0" }; b = b.header(k.into(), Value::String(x.clone())); hs.retain(|h| h.0 != k); hs.push((k.into(), Value::String(x))); }
            11 => { b = b.to_many(vec![]); to.get_or_insert(vec![]); }
            12 => { b = b.attachments(vec![]); at.get_or_insert(vec![]); }
            _ => { let v = match len { 0 => Value::Null, 1 => json!({}), _ => json!([null, x]) }; b = b.header("h0".into(), v.clone()); hs.retain(|h| h.0 != "h0"); hs.push(("h0".into(), v)); }
        }
    }
    let m = b.finalize();
    sym::check(m.id == gen::format_s("i", &s) && m.type_ == gen::format_s("t", &s) && m.body == Value::String(s.clone()) && m.typ == "application/didcomm-plain+json", 10);
    sym::check(m.to == to, 11);
    sym::check(m.attachments == at, 12);
    sym::check(m.thid == th && m.pthid == pt, 13);
    sym::check(m.from == fr && m.from_prior == fp, 14);
    sym::check(m.created_time == ct && m.expires_time == et, 15);
    sym::check(m.extra_headers.len() == hs.len(), 16);
    for (k, v) in &hs { sym::check(m.extra_headers.get(k) == Some(v), 17); }
    sym::reach(1);
}
/// reading: member order, unknown members kept as extra headers, absent typ defaulted, wrong typ / wrong member types rejected
pub fn read() {
    let s = sym::ident(1);
    let d = Dids::new(vec![]); let w = Secs::new(vec![]);
    // members in a rotated order
    let mut parts: Vec<(&str, String)> = vec![("id", { let mut o = String::new(); js(&mut o, &s); o }), ("type", "\"t\"".into()), ("body", "{}".into())];
    let typ = sym::choice(4);
    match typ { 0 => {} 1 => parts.push(("typ", "\"application/didcomm-plain+json\"".into())), 2 => { let mut o = String::from("\"application/didcomm-plain+jso"); o.push_str(&s); o.push('"'); parts.push(("typ", o)) } _ => { let mut o = String::from("\""); o.push_str(&s); o.push('"'); parts.push(("typ", o)) } }
    // one further member: known optional ones with right and wrong JSON types, or unknown
    let x = sym::choice(12);
    let wrong = sym::flip();
    let vals: &[(&str, &str, &str)] = &[("from", "\"did:x:a\"", "1"), ("to", "[\"did:x:b\"]", "\"did:x:b\""), ("thid", "\"a\"", "{}"), ("pthid", "\"a\"", "[]"), ("created_time", "7", "-7"), ("expires_time", "7", "\"7\""), ("attachments", "[]", "{}"), ("attachments", "[{\"data\":{\"json\":1}}]", "[{\"data\":{}}]"), ("unknown", "{\"a\":[1]}", "null"), ("created_time", "18446744073709551615", "18446744073709551616"), ("created_time", "0", "1.5")];
    if (x as usize) < vals.len() { let v = vals[x as usize]; parts.push((v.0, (if wrong { v.2 } else { v.1 }).into())); }
    let miss = sym::choice(4); // drop one mandatory member
    if miss > 0 { parts.remove((miss - 1) as usize); }
    let rot = sym::choice(parts.len() as u32) as usize;
    parts.rotate_left(rot);
    let mut j = String::from("{");
    for (i, (k, v)) in parts.iter().enumerate() { if i > 0 { j.push(','); } j.push('"'); j.push_str(k); j.push_str("\":"); j.push_str(v); }
    j.push('}');
    let bad_member = (x as usize) < vals.len() && wrong && x != 8;
    let typ_ok = match typ { 2 => s == "n", 3 => false, _ => true };
    let ok = miss == 0 && !bad_member && typ_ok;
    match run(Message::unpack(&j, &d, &w, &UnpackOptions::default())) {
        Ok((m, _)) => {
            sym::check(ok, 20);
            sym::check(m.id == s && m.type_ == "t" && m.body == json!({}) && m.typ == "application/didcomm-plain+json", 21);
            let has = |i: u32| x == i;
            sym::check(m.from.as_deref() == if has(0) { Some("did:x:a") } else { None }, 22);
            sym::check(m.to == if has(1) { Some(vec!["did:x:b".to_string()]) } else { None }, 23);
            sym::check(m.thid.as_deref() == if has(2) { Some("a") } else { None } && m.pthid.as_deref() == if has(3) { Some("a") } else { None }, 24);
            sym::check(m.created_time == if has(4) { Some(7) } else if has(9) { Some(u64::MAX) } else if has(10) { Some(0) } else { None } && m.expires_time == if has(5) { Some(7) } else { None }, 25);
            sym::check(m.attachments.as_ref().map(|a| a.len()) == if has(6) { Some(0) } else if has(7) { Some(1) } else { None }, 26);
            if has(8) { sym::check(m.extra_headers.len() == 1 && m.extra_headers.get("unknown") == Some(&if wrong { Value::Null } else { json!({"a":[1]}) }), 27); } else { sym::check(m.extra_headers.is_empty(), 28); }
            sym::reach(1);
        }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(!ok, 29); sym::check(kcode(e.kind()) == 4, 30); sym::reach(2); }
    }
}
/// the media type itself with any one character replaced by, or preceded or followed by, any visible character or a blank; empty; null
pub fn read_typ() {
    let t = "application/didcomm-plain+json";
    let (d, w) = (Dids::new(vec![]), Secs::new(vec![]));
    let c = if sym::flip() { sym::ident(1) } else { " ".to_string() };
    let k = sym::choice(t.len() as u32 + 1) as usize;
    let how = sym::choice(4);
    let typ = match how {
        0 => { sym::assume(k < t.len()); let mut o = t[..k].to_string(); o.push_str(&c); o.push_str(&t[k + 1..]); o } // replaced
        1 => { let mut o = t[..k].to_string(); o.push_str(&c); o.push_str(&t[k..]); o } // inserted
        2 => t[k..].to_string(),
        _ => t[..k].to_string(),
    };
    let j = format!("{{\"id\":\"i\",\"type\":\"t\",\"body\":null,\"typ\":\"{typ}\"}}");
    // the text of the message itself with a character too many before or after it
    if how == 3 && k == t.len() {
        let g = match sym::choice(3) { 0 => "\u{feff}".to_string(), 1 => "\u{0}".into(), _ => c.clone() };
        let j = if sym::flip() { [g.as_str(), j.as_str()].concat() } else { [j.as_str(), g.as_str()].concat() };
        sym::check(run(Message::unpack(&j, &d, &w, &UnpackOptions::default())).is_ok() == (g == " "), 5);
        sym::reach(3);
        return;
    }
    match run(Message::unpack(&j, &d, &w, &UnpackOptions::default())) {
        Ok((m, _)) => { sym::check(typ == t, 1); sym::check(m.typ == t, 2); sym::reach(1); }
        Err(e) => { sym::check(typ != t, 3); sym::check(kcode(e.kind()) == 4, 4); sym::reach(2); }
    }
}
/// top-level members whose names resemble the ones with a meaning are kept as they are, alone and together
pub fn read_unknown() {
    const NAMES: &[&str] = &["created", "expires", "thread_id", "threadId", "parent_thid", "parentThid", "@id", "@type", "~thread", "~attach", "sender", "recipients", "ack", "please_ack", "lang", "accept-lang", "attach", "attachment", "attachment_s", "typ2", "Typ", "Type", "type_", "ID", "Id", "_id", "sub", "iss", "From", "frm", "To", "next", "createdTime", "expiresTime", "created_at", "fromPrior", "prior", "content", "payload", "data", "Body", "body~l10n", "extra_headers", "extraHeaders", "headers", "return_route", "pleaseAck", "l10n", ""];
    let (d, w) = (Dids::new(vec![]), Secs::new(vec![]));
    let n = sym::choice(NAMES.len() as u32) as usize;
    let s = sym::ident(1);
    let v = match sym::choice(5) { 0 => "null".to_string(), 1 => format!("\"{s}\""), 2 => "7".to_string(), 3 => format!("[\"{s}\",{{}}]"), _ => format!("{{\"{}\":\"{s}\"}}", NAMES[n]) };
    let v2 = format!("\"x{s}\"");
    let (a, b) = (NAMES[n], NAMES[(n + 1) % NAMES.len()]);
    let j = if sym::flip() { format!("{{\"{a}\":{v},\"id\":\"i\",\"type\":\"t\",\"{b}\":{v2},\"body\":null}}") } else { format!("{{\"id\":\"i\",\"body\":null,\"{b}\":{v2},\"type\":\"t\",\"{a}\":{v}}}") };
    match run(Message::unpack(&j, &d, &w, &UnpackOptions::default())) {
        Ok((m, _)) => {
            let mut e = gen::message(0, "", 0); e.id = "i".into(); e.type_ = "t".into(); e.body = Value::Null;
            e.extra_headers.insert(a.into(), serde_json::from_str(&v).unwrap_or_default());
            e.extra_headers.insert(b.into(), serde_json::from_str(&v2).unwrap_or_default());
            sym::check(m == e, 1);
            sym::reach(1);
        }
        Err(_) => sym::fail(2),
    }
}
