use crate::{craft::*, fix::*, gen, sym};
use didcomm::*;
use serde_json::{json, Map, Value};

fn expect(kind: u32, mask: u32, s: &str, n: u64) -> Value {
    let mut o = Map::new(); let mut d = Map::new();
    match kind { 0 => { d.insert("base64".into(), Value::String(s.into())); } 1 => { d.insert("json".into(), Value::String(s.into())); } _ => { d.insert("links".into(), json!([s, "l"])); d.insert("hash".into(), "h".into()); } }
    let f = |p: &str| Value::String(gen::format_s(p, s));
    if mask & 128 != 0 { d.insert("jws".into(), f("j")); }
    o.insert("data".into(), Value::Object(d));
    if mask & 1 != 0 { o.insert("id".into(), f("i")); }
    if mask & 2 != 0 { o.insert("description".into(), f("d")); }
    if mask & 4 != 0 { o.insert("filename".into(), f("f")); }
    if mask & 8 != 0 { o.insert("media_type".into(), f("m")); }
    if mask & 16 != 0 { o.insert("format".into(), f("o")); }
    if mask & 32 != 0 { o.insert("lastmod_time".into(), Value::from(n)); }
    if mask & 64 != 0 { o.insert("byte_count".into(), Value::from(n.wrapping_add(1))); }
    Value::Object(o)
}
fn wire(kind: u32, mask: u32, s: &str, n: u64) {
    let a = gen::attachment(kind, mask, s, n);
    let t = match serde_json::to_string(&a) { Ok(t) => t, Err(_) => { sym::fail(1); return; } };
    match serde_json::from_str::<Value>(&t) { Ok(v) => sym::check(v == expect(kind, mask, s, n), 2), Err(_) => { sym::fail(3); return; } }
    match serde_json::from_str::<Attachment>(&t) { Ok(u) => sym::check(u == a, 4), Err(_) => sym::fail(5) }
    // through a message
    let mut m = gen::message(0, "", 0); m.attachments = Some(vec![gen::attachment(0, 0, "", 0), a.clone()]);
    let d = Dids::new(vec![]); let w = Secs::new(vec![]);
    match run(m.pack_plaintext(&d)) {
        Ok(p) => match run(Message::unpack(&p, &d, &w, &UnpackOptions::default())) { Ok((u, _)) => sym::check(u == m, 6), Err(_) => sym::fail(7) },
        Err(_) => sym::fail(8),
    }
    // builder values
    let o = |b: u32, p: &str| if mask & b != 0 { Some(gen::format_s(p, s)) } else { None };
    sym::check(a.id == o(1, "i") && a.description == o(2, "d") && a.filename == o(4, "f") && a.media_type == o(8, "m") && a.format == o(16, "o"), 9);
    sym::check(a.lastmod_time == if mask & 32 != 0 { Some(n) } else { None } && a.byte_count == if mask & 64 != 0 { Some(n.wrapping_add(1)) } else { None }, 10);
    sym::obs_bytes(t.as_bytes());
}
/// every subset of optional fields for every kind
pub fn fields() {
    let kind = sym::choice(3);
    let mut mask = 0; for i in 0..8 { if sym::flip() { mask |= 1 << i; } }
    let s = sym::ident(1); let n = sym::byte() as u64;
    wire(kind, mask, &s, n);
    sym::reach(1 + kind);
}
/// arbitrary text and numbers near the integer limits
pub fn values() {
    let kind = sym::choice(3);
    if sym::flip() { let s = sym::utf8(sym::by_tier(2, 3)); wire(kind, sym::choice(2) * 128, &s, 0); }
    else { let n = gen::num(); sym::assume(n != u64::MAX); wire(kind, 96, "s", n); }
    sym::reach(1 + kind);
}
/// the builder puts in exactly the last value given for each attribute, for texts of up to two characters (none included), any 64-bit numbers, up to four links; and they survive writing and reading
pub fn builder() {
    let kind = sym::choice(3);
    let len = sym::choice(3) as usize;
    let x = sym::ident(len); let nl = if kind == 2 { sym::choice(5) as usize } else { 0 };
    let links: Vec<String> = (0..nl).map(|i| if i == 2 { String::new() } else { sym::ident(1) }).collect();
    let mut b = match kind { 0 => Attachment::base64(x.clone()), 1 => Attachment::json(json!({ "a": x })), _ => Attachment::links(links.clone(), x.clone()) };
    let (mut id, mut de, mut fi, mut me, mut fo, mut la, mut by, mut jw) = (None, None, None, None, None, None, None, None);
    for _ in 0..sym::by_tier(2, 3) {
        let t = sym::ident(len); let n = sym::u64v();
        match sym::choice(8) {
            0 => { b = b.id(t.clone()); id = Some(t); }
            1 => { b = b.description(t.clone()); de = Some(t); }
            2 => { b = b.filename(t.clone()); fi = Some(t); }
            3 => { b = b.media_type(t.clone()); me = Some(t); }
            4 => { b = b.format(t.clone()); fo = Some(t); }
            5 => { b = b.lastmod_time(n); la = Some(n); }
            6 => { b = b.byte_count(n); by = Some(n); }
            _ => { b = b.jws(t.clone()); jw = Some(t); }
        }
    }
    let a = b.finalize();
    sym::check(a.id == id && a.description == de && a.filename == fi && a.media_type == me && a.format == fo, 1);
    sym::check(a.lastmod_time == la && a.byte_count == by, 2);
    match &a.data {
        AttachmentData::Base64 { value } => sym::check(kind == 0 && value.base64 == x && value.jws == jw, 3),
        AttachmentData::Json { value } => sym::check(kind == 1 && value.json == json!({ "a": x }) && value.jws == jw, 4),
        AttachmentData::Links { value } => sym::check(kind == 2 && value.links == links && value.hash == x && value.jws == jw, 5),
    }
    let mut a = a;
    // numbers are written in the values entry; here any 64-bit value would need symbolic decimal conversion
    if a.lastmod_time.is_some() { a.lastmod_time = Some(7); }
    if a.byte_count.is_some() { a.byte_count = Some(0); }
    match serde_json::to_string(&a).ok().and_then(|t| serde_json::from_str::<Attachment>(&t).ok()) { Some(u) => sym::check(u == a, 6), None => sym::fail(7) }
    sym::reach(1 + kind);
}
/// json attachment content of every JSON shape
pub fn json_content() {
    let s = sym::utf8(1); let n = sym::byte() as u64;
    let v = gen::body(&s, n);
    let a = Attachment::json(v.clone()).finalize();
    let t = serde_json::to_string(&a).unwrap_or_default();
    match serde_json::from_str::<Attachment>(&t) { Ok(u) => { sym::check(u == a, 1); match u.data { AttachmentData::Json { value } => sym::check(value.json == v && value.jws.is_none(), 2), _ => sym::fail(3) } } Err(_) => sym::fail(4) }
    sym::reach(1);
}
/// reading: the kind is decided by the members present; data of no kind is rejected; unknown members ignored
pub fn read() {
    let s = sym::ident(1);
    // presence of each discriminating member, with right or wrong JSON type
    let (b, j, l, h) = (sym::choice(3), sym::choice(2), sym::choice(3), sym::choice(2));
    let w = sym::choice(3);
    let mut d: Vec<String> = vec![];
    if b == 1 { let mut o = String::from("\"base64\":\""); o.push_str(&s); o.push('"'); d.push(o); }
    if b == 2 { d.push("\"base64\":5".into()); }
    if j == 1 { d.push("\"json\":{\"base64\":\"zz\"}".into()); }
    if l == 1 { let mut o = String::from("\"links\":[\""); o.push_str(&s); o.push_str("\"]"); d.push(o); }
    if l == 2 { d.push("\"links\":\"x\"".into()); }
    if h == 1 { d.push("\"hash\":\"hh\"".into()); }
    if w == 1 { d.push("\"jws\":\"w\"".into()); }
    if w == 2 { d.push("\"zzz\":\"w\"".into()); }
    if !d.is_empty() { let r = sym::choice(d.len() as u32) as usize; d.rotate_left(r); }
    let mut t = String::from("{\"data\":{");
    for (i, x) in d.iter().enumerate() { if i > 0 { t.push(','); } t.push_str(x); }
    t.push_str("},\"id\":\"q\",\"unknown\":[1]}");
    let jw = if w == 1 { Some("w".to_string()) } else { None };
    // first matching kind wins: base64, json, links
    let want = if b == 1 { 1 } else if j == 1 { 2 } else if l == 1 && h == 1 { 3 } else { 0 };
    let multi = (b == 1) as u32 + (j == 1) as u32 + (l == 1 && h == 1) as u32 > 1;
    match serde_json::from_str::<Attachment>(&t) {
        Ok(a) => {
            sym::check(want != 0, 1);
            sym::check(a.id.as_deref() == Some("q") && a.description.is_none() && a.byte_count.is_none(), 2);
            if !multi { match a.data {
                AttachmentData::Base64 { value } => sym::check(want == 1 && value.base64 == s && value.jws == jw, 3),
                AttachmentData::Json { value } => sym::check(want == 2 && value.json == json!({"base64": "zz"}) && value.jws == jw, 4),
                AttachmentData::Links { value } => sym::check(want == 3 && value.links == vec![s.clone()] && value.hash == "hh" && value.jws == jw, 5),
            } }
            sym::reach(want);
        }
        Err(_) => { sym::check(want == 0, 6); sym::reach(10); }
    }
}
/// members with other plausible names are ignored at both levels; each attribute absent, null, right or of another JSON type
pub fn names() {
    const TOP: &[&str] = &["_id", "@id", "Id", "attachment_id", "desc", "Description", "descr", "file_name", "fileName", "name", "Filename", "mime_type", "mimetype", "mime-type", "mediaType", "media-type", "content_type", "type", "Format", "fmt", "lastmod", "lastModTime", "lastmodTime", "last_modified", "byteCount", "bytes", "size", "length", "data_", "jws", "hash", "links", "base64", "json", "payload", ""];
    const DATA: &[&str] = &["base64url", "Base64", "b64", "base_64", "JSON", "Json", "json_", "value", "link", "Links", "urls", "url", "Hash", "sha256", "signature", "JWS", "jws_", "id", "media_type", ""];
    let s = sym::ident(1); let kind = sym::choice(3);
    let a = gen::attachment(kind, 0, &s, 0);
    let mut v = expect(kind, 0, &s, 0);
    let x = match sym::choice(4) { 0 => Value::String(s.clone()), 1 => json!(7), 2 => json!([s.clone()]), _ => json!({ "a": s.clone() }) };
    match sym::choice(3) {
        0 => { v[TOP[sym::choice(TOP.len() as u32) as usize]] = x; }
        1 => { v["data"][DATA[sym::choice(DATA.len() as u32) as usize]] = x; }
        _ => {
            // an attribute of the wrong type is an error, null is none, and the right one sets that attribute alone
            let i = sym::choice(8) as usize;
            let (n, num) = [("id", false), ("description", false), ("filename", false), ("media_type", false), ("format", false), ("lastmod_time", true), ("byte_count", true), ("jws", false)][i];
            let y = match sym::choice(6) { 0 => Value::Null, 1 => Value::String(s.clone()), 2 => json!(12), 3 => json!([s.clone()]), 4 => json!(true), _ => json!("12") };
            let good = y.is_null() || (num && y.is_number()) || (!num && y.is_string());
            let mut e = a.clone();
            if !y.is_null() && good { let t = y.as_str().map(|t| t.to_string()); match i { 0 => e.id = t, 1 => e.description = t, 2 => e.filename = t, 3 => e.media_type = t, 4 => e.format = t, 5 => e.lastmod_time = y.as_u64(), 6 => e.byte_count = y.as_u64(), _ => match &mut e.data { AttachmentData::Base64 { value } => value.jws = t, AttachmentData::Json { value } => value.jws = t, AttachmentData::Links { value } => value.jws = t } } }
            if i == 7 { v["data"][n] = y } else { v[n] = y }
            match serde_json::from_str::<Attachment>(&v.to_string()) { Ok(u) => { sym::check(good && u == e, 11); sym::reach(2); } Err(_) => { sym::check(!good, 12); sym::reach(3); } }
            return;
        }
    }
    match serde_json::from_str::<Attachment>(&v.to_string()) { Ok(u) => { sym::check(u == a, 13); sym::reach(1); } Err(_) => sym::fail(14) }
}
