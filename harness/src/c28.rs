use crate::{fix::*, gen, sym};
use didcomm::algorithms::*;
use didcomm::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

const AN: [&str; 3] = ["A256cbcHs512EcdhEsA256kw", "Xc20pEcdhEsA256kw", "A256gcmEcdhEsA256kw"];
const AU: &str = "A256cbcHs512Ecdh1puA256kw";
fn ani(a: &AnonCryptAlg) -> usize { match a { AnonCryptAlg::A256cbcHs512EcdhEsA256kw => 0, AnonCryptAlg::Xc20pEcdhEsA256kw => 1, AnonCryptAlg::A256gcmEcdhEsA256kw => 2 } }
/// what is written with the members in any of two orders
fn text(m: &[(&str, Value)]) -> String {
    let mut t = String::from("{");
    let rev = sym::flip();
    for i in 0..m.len() { let (k, v) = &m[if rev { m.len() - 1 - i } else { i }]; if i > 0 { t.push(','); } t.push('"'); t.push_str(k); t.push_str("\":"); t.push_str(&v.to_string()); }
    t.push('}');
    t
}
/// every subset of the packing options with every value
pub fn pack() {
    let s = sym::ident(1);
    let mut m: Vec<(&str, Value)> = vec![];
    let (mut p, mut f, mut h, mut ms, mut an) = (false, true, None, None, 1usize);
    match sym::choice(3) { 0 => (), x => { p = x == 2; m.push(("protect_sender", json!(p))); } }
    match sym::choice(3) { 0 => (), x => { f = x == 2; m.push(("forward", json!(f))); } }
    match sym::choice(4) { 0 => (), 1 => m.push(("forward_headers", Value::Null)), 2 => { h = Some(HashMap::new()); m.push(("forward_headers", json!({}))); } _ => { let mut x = HashMap::new(); x.insert(gen::format_s("n", &s), json!([s, 1])); x.insert("o".to_string(), Value::Null); let mut o = Map::new(); for (k, v) in &x { o.insert(k.clone(), v.clone()); } h = Some(x); m.push(("forward_headers", Value::Object(o))); } }
    match sym::choice(3) { 0 => (), 1 => m.push(("messaging_service", Value::Null)), _ => { ms = Some(gen::format_s("did:x:b#", &s)); m.push(("messaging_service", ms.clone().into())); } }
    if sym::flip() { m.push(("enc_alg_auth", AU.into())); }
    match sym::choice(4) { 0 => (), x => { an = x as usize - 1; m.push(("enc_alg_anon", AN[an].into())); } }
    if sym::flip() { m.push(("zz", json!(s))); }
    let d = PackEncryptedOptions::default();
    sym::check(!d.protect_sender && d.forward && d.forward_headers.is_none() && d.messaging_service.is_none() && ani(&d.enc_alg_anon) == 1 && d.enc_alg_auth == AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, 1);
    match serde_json::from_str::<PackEncryptedOptions>(&text(&m)) {
        Ok(o) => { sym::check(o.protect_sender == p, 2); sym::check(o.forward == f, 3); sym::check(o.forward_headers == h, 4); sym::check(o.messaging_service == ms, 5); sym::check(o.enc_alg_auth == AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, 6); sym::check(ani(&o.enc_alg_anon) == an, 7); sym::reach(1); }
        Err(_) => sym::fail(8),
    }
}
/// the unpacking options
pub fn unpack() {
    let mut m: Vec<(&str, Value)> = vec![];
    let (mut e, mut u) = (false, None);
    match sym::choice(3) { 0 => (), x => { e = x == 2; m.push(("expect_decrypt_by_all_keys", json!(e))); } }
    match sym::choice(3) { 0 => (), x => { u = Some(x == 2); m.push(("unwrap_re_wrapping_forward", json!(x == 2))); } }
    if sym::flip() { m.push(("zz", json!("s"))); }
    let d = UnpackOptions::default();
    sym::check(!d.expect_decrypt_by_all_keys, 11);
    match serde_json::from_str::<UnpackOptions>(&text(&m)) {
        Ok(o) => {
            sym::check(o.expect_decrypt_by_all_keys == e, 12);
            match u {
                Some(u) => sym::check(o.unwrap_re_wrapping_forward == u, 13),
                // documented as off; read from JSON it is off, in UnpackOptions::default() it is on
                None => { sym::check(!o.unwrap_re_wrapping_forward, 14); if d.unwrap_re_wrapping_forward { sym::known(1); } }
            }
            sym::reach(1);
        }
        Err(_) => sym::fail(16),
    }
}
/// values of the wrong type and names that are not exactly an algorithm's are refused
pub fn wrong() {
    let s = sym::ascii(1);
    let bad = |k: &str, v: Value| { let mut o = Map::new(); o.insert(k.into(), v); Value::Object(o).to_string() };
    let near = |t: &str| -> Option<String> { let q = sym::choice(t.len() as u32) as usize; match sym::choice(4) { 0 => { if s.as_bytes()[0] == t.as_bytes()[q] { None } else { Some([&t[..q], s.as_str(), &t[q + 1..]].concat()) } } 1 => Some([&t[..q], s.as_str(), &t[q..]].concat()), 2 => Some([&t[..q], &t[q + 1..]].concat()), _ => Some([t, s.as_str()].concat()) } };
    let t = match sym::choice(6) {
        0 => { let a = AN[sym::choice(3) as usize]; match near(a) { Some(x) => { if AN.contains(&x.as_str()) { return; } bad("enc_alg_anon", x.into()) } None => return } }
        1 => match near(AU) { Some(x) => bad("enc_alg_auth", x.into()), None => return },
        2 => bad("enc_alg_anon", match sym::choice(5) { 0 => AU.into(), 1 => Value::Null, 2 => json!(1), 3 => json!("XC20P"), _ => json!([AN[0]]) }),
        3 => bad("enc_alg_auth", match sym::choice(5) { 0 => AN[0].into(), 1 => Value::Null, 2 => json!(1), 3 => json!("A256CBC-HS512"), _ => json!([AU]) }),
        4 => { let k = ["protect_sender", "forward"][sym::choice(2) as usize]; bad(k, match sym::choice(5) { 0 => json!(s), 1 => Value::Null, 2 => json!(1), 3 => json!("true"), _ => json!([true]) }) }
        _ => { let k = ["expect_decrypt_by_all_keys", "unwrap_re_wrapping_forward"][sym::choice(2) as usize]; let t = bad(k, match sym::choice(5) { 0 => json!(s), 1 => Value::Null, 2 => json!(1), 3 => json!("true"), _ => json!([true]) }); match serde_json::from_str::<UnpackOptions>(&t) { Ok(_) => sym::fail(21), Err(_) => sym::reach(1) } return; }
    };
    match serde_json::from_str::<PackEncryptedOptions>(&t) { Ok(_) => sym::fail(22), Err(_) => sym::reach(2) }
}
fn opt_s(k: u32, x: &str) -> Option<String> { if k == 0 { None } else { Some(x.into()) } }
fn js(o: &Option<String>) -> Value { match o { Some(s) => s.clone().into(), None => Value::Null } }
/// metadata written as JSON: every field under its name with its value
pub fn unpack_metadata() {
    let s = sym::ident(1);
    let b: Vec<bool> = (0..5).map(|_| sym::flip()).collect();
    let k = sym::choice(10);
    let at = |i: u32| if k == i || k == 9 { 1 } else { 0 };
    let an = sym::choice(4); let sg = sym::choice(4);
    let md = UnpackMetadata { encrypted: b[0], authenticated: b[1], non_repudiation: b[2], anonymous_sender: b[3], re_wrapped_in_forward: b[4],
        encrypted_from_kid: opt_s(at(1), &s), encrypted_to_kids: if at(2) == 1 { Some(vec![s.clone(), "b".into()]) } else { None }, sign_from: opt_s(at(3), &s), from_prior_issuer_kid: opt_s(at(4), &s),
        enc_alg_auth: if at(5) == 1 { Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw) } else { None }, enc_alg_anon: if an > 0 { Some(anon_alg(an - 1)) } else { None },
        sign_alg: match sg { 0 => None, 1 => Some(SignAlg::EdDSA), 2 => Some(SignAlg::ES256), _ => Some(SignAlg::ES256K) }, signed_message: opt_s(at(6), &s), from_prior: None };
    let e = json!({"encrypted": b[0], "authenticated": b[1], "non_repudiation": b[2], "anonymous_sender": b[3], "re_wrapped_in_forward": b[4], "encrypted_from_kid": js(&md.encrypted_from_kid),
        "encrypted_to_kids": match &md.encrypted_to_kids { Some(v) => json!(v), None => Value::Null }, "sign_from": js(&md.sign_from), "from_prior_issuer_kid": js(&md.from_prior_issuer_kid),
        "enc_alg_auth": if at(5) == 1 { json!(AU) } else { Value::Null }, "enc_alg_anon": match an { 0 => Value::Null, i => json!(["A256cbcHs512EcdhEsA256kw", "Xc20pEcdhEsA256kw", "A256gcmEcdhEsA256kw"][ani(&anon_alg(i - 1))]) },
        "sign_alg": match sg { 0 => Value::Null, i => json!(["EdDSA", "ES256", "ES256K"][i as usize - 1]) }, "signed_message": js(&md.signed_message), "from_prior": null});
    match serde_json::to_string(&md).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) { Some(v) => { sym::check(v == e, 31); sym::reach(1); } None => sym::fail(32) }
}
/// packing metadata of real packing calls
pub fn pack_metadata() {
    let c = sym::ident(1);
    let mut b = Who::new("did:x:b").ka("k", Kt::X, 3);
    let fw = sym::flip();
    if fw { b = b.svc(svc("did:x:b#s", &gen::format_s("http://", &c), None, &["did:x:m#k"])); }
    let a = Who::new("did:x:a").ka("k", Kt::X, 1).auth("s", Kt::Ed, 2); let m = Who::new("did:x:m").ka("k", Kt::X, 5);
    let d = Dids::new(vec![a.doc(), b.doc(), m.doc()]); let s = Secs::new(a.secrets());
    let au = sym::flip(); let sg = sym::flip();
    let msg = Message::build("i".into(), "t".into(), json!(1)).from("did:x:a".into()).finalize();
    let v = match run(msg.pack_encrypted("did:x:b", if au { Some("did:x:a") } else { None }, if sg { Some("did:x:a") } else { None }, &d, &s, &opts(fw))) { Ok((_, md)) => serde_json::to_string(&md).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()), Err(_) => { sym::fail(41); return; } };
    let e = json!({"messaging_service": if fw { json!({"id": "did:x:b#s", "service_endpoint": gen::format_s("http://", &c)}) } else { Value::Null }, "from_kid": if au { json!("did:x:a#k") } else { Value::Null }, "sign_by_kid": if sg { json!("did:x:a#s") } else { Value::Null }, "to_kids": ["did:x:b#k"]});
    match v { Some(v) => { sym::check(v == e, 42); sym::reach(1); } None => sym::fail(43) }
    match run(msg.pack_signed("did:x:a", &d, &s)) { Ok((_, md)) => sym::check(serde_json::to_value(&md).ok() == Some(json!({"sign_by_kid": "did:x:a#s"})), 44), Err(_) => sym::fail(45) }
}

/// names written in another style, and names with any two characters replaced, are refused
pub fn styles() {
    let i = sym::choice(4) as usize;
    let n = if i < 3 { AN[i] } else { AU };
    let x = match sym::choice(12) {
        0 => n.to_lowercase(), 1 => n.to_uppercase(),
        2 => ["A256CBC-HS512+ECDH-ES+A256KW", "XC20P+ECDH-ES+A256KW", "A256GCM+ECDH-ES+A256KW", "A256CBC-HS512+ECDH-1PU+A256KW"][i].into(),
        3 => ["A256CBC_HS512_ECDH_ES_A256KW", "XC20P_ECDH_ES_A256KW", "A256GCM_ECDH_ES_A256KW", "A256CBC_HS512_ECDH_1PU_A256KW"][i].into(),
        4 => ["a256cbc_hs512_ecdh_es_a256kw", "xc20p_ecdh_es_a256kw", "a256gcm_ecdh_es_a256kw", "a256cbc_hs512_ecdh_1pu_a256kw"][i].into(),
        5 => ["a256cbcHs512EcdhEsA256kw", "xc20pEcdhEsA256kw", "a256gcmEcdhEsA256kw", "a256cbcHs512Ecdh1puA256kw"][i].into(),
        6 => ["A256CBC-HS512", "XC20P", "A256GCM", "A256CBC-HS512"][i].into(),
        7 => ["A256CbcHs512EcdhEsA256Kw", "XC20PEcdhEsA256kw", "A256GCMEcdhEsA256kw", "A256CbcHs512Ecdh1PuA256Kw"][i].into(),
        8 => ["A256CBCHS512ECDHESA256KW", "XC20PECDHESA256KW", "A256GCMECDHESA256KW", "A256CBCHS512ECDH1PUA256KW"][i].into(),
        9 => ["ECDH-ES+A256KW", "ECDH-ES+A256KW", "ECDH-ES+A256KW", "ECDH-1PU+A256KW"][i].into(),
        10 => [["A256CBCHS512", "Xc20P", "A256Gcm", "A256CBCHS512"][i], &n[[12, 5, 7, 12][i]..]].concat(),
        _ => { let c = sym::ascii(2); let (p, q) = (sym::choice(n.len() as u32) as usize, sym::choice(n.len() as u32) as usize); sym::assume(p < q); let x = [&n[..p], &c[..1], &n[p + 1..q], &c[1..], &n[q + 1..]].concat(); sym::assume(x != n); x }
    };
    let mut o = Map::new(); o.insert((if i < 3 { "enc_alg_anon" } else { "enc_alg_auth" }).into(), x.into());
    match serde_json::from_value::<PackEncryptedOptions>(Value::Object(o)) { Ok(_) => sym::fail(24), Err(_) => sym::reach(1) }
}
