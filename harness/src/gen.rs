//! Message generators over symbolic content and presence choices.
use crate::{fix::*, sym};
use didcomm::did::*;
use didcomm::secrets::Secret;
use didcomm::*;
use serde_json::{json, Map, Value};

/// any of 256 consecutive numbers around interesting magnitudes
pub fn num() -> u64 {
    let base = match sym::choice(6) { 0 => 0u64, 1 => (1 << 31) - 128, 2 => (1 << 32) - 128, 3 => (1 << 53) - 128, 4 => (1 << 63) - 128, _ => u64::MAX - 255 };
    base.wrapping_add(sym::byte() as u64)
}
pub fn num_small() -> u64 { sym::byte() as u64 }

/// attachment of a kind (0 base64, 1 json, 2 links) with optional fields by bit mask (8 bits: id, description, filename, media_type, format, lastmod_time, byte_count, jws)
pub fn attachment(kind: u32, mask: u32, s: &str, n: u64) -> Attachment {
    let b = match kind {
        0 => Attachment::base64(s.to_string()),
        1 => Attachment::json(Value::String(s.to_string())),
        _ => Attachment::links(vec![s.to_string(), "l".into()], "h".into()),
    };
    let mut b = b;
    if mask & 1 != 0 { b = b.id(format_s("i", s)); }
    if mask & 2 != 0 { b = b.description(format_s("d", s)); }
    if mask & 4 != 0 { b = b.filename(format_s("f", s)); }
    if mask & 8 != 0 { b = b.media_type(format_s("m", s)); }
    if mask & 16 != 0 { b = b.format(format_s("o", s)); }
    if mask & 32 != 0 { b = b.lastmod_time(n); }
    if mask & 64 != 0 { b = b.byte_count(n.wrapping_add(1)); }
    if mask & 128 != 0 { b = b.jws(format_s("j", s)); }
    b.finalize()
}
pub fn format_s(p: &str, s: &str) -> String { let mut o = String::from(p); o.push_str(s); o }

/// message with optional headers by bit mask (from, to, to2, thid, pthid, header, created, expires, attachment, attachment2)
pub fn message(mask: u32, s: &str, n: u64) -> Message {
    let mut b = Message::build(format_s("id", s), format_s("ty", s), json!({ "b": s }));
    if mask & 1 != 0 { b = b.from("did:x:a".into()); }
    if mask & 2 != 0 { b = b.to("did:x:b".into()); }
    if mask & 4 != 0 { b = b.to_many(vec!["did:x:c".into(), format_s("did:x:", s)]); }
    if mask & 8 != 0 { b = b.thid(format_s("th", s)); }
    if mask & 16 != 0 { b = b.pthid(format_s("pt", s)); }
    if mask & 32 != 0 { b = b.header("hh".into(), Value::String(format_s("v", s))); }
    if mask & 64 != 0 { b = b.created_time(n); }
    if mask & 128 != 0 { b = b.expires_time(n.wrapping_add(2)); }
    if mask & 256 != 0 { b = b.attachment(attachment(0, 0x21, s, n)); }
    if mask & 512 != 0 { b = b.attachments(vec![attachment(1, 0x80, s, n), attachment(2, 0, s, n)]); }
    b.finalize()
}
/// a JSON value of a chosen shape with a symbolic leaf
pub fn body(s: &str, n: u64) -> Value {
    match sym::choice(8) {
        0 => Value::Null,
        1 => Value::Bool(n & 1 == 1),
        2 => Value::from(n),
        3 => Value::String(s.to_string()),
        4 => json!([]),
        5 => json!({}),
        6 => { let mut m = Map::new(); m.insert("k".into(), json!([s, n, null, true])); m.insert("o".into(), json!({"x": {"y": s}})); Value::Object(m) }
        _ => Value::from(-1i64 - (n & 0x7f) as i64),
    }
}
/// one member of a message set to a value of its own: nothing in it (0), one symbolic (1), several symbolic (2)
pub fn edge(m: &mut Message, field: u32, variant: u32) {
    let text = |v: u32| if v == 0 { String::new() } else { sym::ident(v as usize) };
    let time = |v: u32| match v { 0 => 0, 1 => sym::byte() as u64, _ => u64::MAX - sym::byte() as u64 };
    match field {
        0 => m.from = Some(text(variant)),
        1 => m.to = Some((0..if variant == 2 { 3 } else { variant }).map(|_| text(1)).collect()),
        2 => m.thid = Some(text(variant)),
        3 => m.pthid = Some(text(variant)),
        4 => { m.extra_headers.insert("eh".into(), match variant { 0 => Value::Null, 1 => Value::String(text(1)), _ => json!({ "a": [text(1), "", null], "b": false }) }); }
        5 => m.created_time = Some(time(variant)),
        6 => m.expires_time = Some(time(variant)),
        7 => m.attachments = Some((0..if variant == 2 { 3 } else { variant }).map(|i| Attachment { id: Some(text(1)), ..attachment(i, 0, "", 0) }).collect()),
        8 => m.body = match variant { 0 => Value::String(String::new()), 1 => json!([text(1)]), _ => json!({ "": text(1), "a": { "b": [[], {}, text(1)] } }) },
        9 => m.id = text(variant),
        _ => m.type_ = text(variant),
    }
}
/// one DID's keys whose ids resemble each other (prefix, suffix, case, blank, another DID's), one id symbolic, one of them possibly left out of the list;
/// key i has seed 10 + i
pub struct Near { pub did: String, pub ids: Vec<String>, pub listed: Vec<String> }
impl Near {
    pub fn new(did: &str) -> Near {
        let id = |f: &str| format_id(did, f);
        let up = did.to_uppercase().replacen("DID", "did", 1);
        let mut ids = vec![id("k"), id("kk"), id("K"), format_id(&up, "k"), id("k/1"), id("k "), format_id("did:x:zz", "k")];
        let c = sym::ident(1);
        let c = if sym::flip() { id(&c) } else { id(&[c.as_str(), "k"].concat()) };
        sym::assume(!ids.contains(&c));
        match sym::choice(3) { 0 => ids.insert(0, c), 1 => ids.insert(4, c), _ => { ids.reverse(); ids.push(c); } }
        let gone = ids.get(sym::choice(ids.len() as u32 + 1) as usize).cloned();
        let listed = ids.iter().filter(|i| Some(*i) != gone.as_ref()).cloned().collect();
        Near { did: did.into(), ids, listed }
    }
    /// listed under keyAgreement or authentication, every one of them under the other relationship
    pub fn doc(&self, ka: bool, t: Kt) -> DIDDoc {
        let mut m: Vec<VerificationMethod> = self.ids.iter().enumerate().map(|(i, id)| vm(id, t, 10 + i as u8)).collect();
        if sym::tier() > 0 && sym::flip() { m.reverse(); }
        let (a, b) = (self.listed.clone(), self.ids.clone());
        DIDDoc { id: self.did.clone(), key_agreement: if ka { a.clone() } else { b.clone() }, authentication: if ka { b } else { a }, verification_method: m, service: vec![] }
    }
    pub fn secret(&self, t: Kt, i: usize) -> Secret { secret(&self.ids[i], t, 10 + i as u8) }
    pub fn own(&self, i: usize) -> bool { self.ids[i].starts_with(&[self.did.as_str(), "#"].concat()) }
    /// a key that is (0) or is not (1, 2) the i-th
    pub fn other(&self, i: usize) -> usize { (i + [0, 1, self.ids.len() - 1][sym::choice(3) as usize]) % self.ids.len() }
    pub fn any(&self) -> usize { sym::choice(self.ids.len() as u32) as usize }
}
