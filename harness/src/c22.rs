use crate::{fix::*, gen, sym};
use didcomm::did::*;
use didcomm::secrets::*;
use serde_json::{json, Map, Value};

const VT: [&str; 7] = ["JsonWebKey2020", "X25519KeyAgreementKey2019", "Ed25519VerificationKey2018", "EcdsaSecp256k1VerificationKey2019", "X25519KeyAgreementKey2020", "Ed25519VerificationKey2020", "Other"];
fn vt(i: usize) -> VerificationMethodType { use VerificationMethodType::*; match i { 0 => JsonWebKey2020, 1 => X25519KeyAgreementKey2019, 2 => Ed25519VerificationKey2018, 3 => EcdsaSecp256k1VerificationKey2019, 4 => X25519KeyAgreementKey2020, 5 => Ed25519VerificationKey2020, _ => Other } }
fn vti(t: &VerificationMethodType) -> usize { use VerificationMethodType::*; match t { JsonWebKey2020 => 0, X25519KeyAgreementKey2019 => 1, Ed25519VerificationKey2018 => 2, EcdsaSecp256k1VerificationKey2019 => 3, X25519KeyAgreementKey2020 => 4, Ed25519VerificationKey2020 => 5, Other => 6 } }
fn st(i: usize) -> SecretType { use SecretType::*; match i { 0 => JsonWebKey2020, 1 => X25519KeyAgreementKey2019, 2 => Ed25519VerificationKey2018, 3 => EcdsaSecp256k1VerificationKey2019, 4 => X25519KeyAgreementKey2020, 5 => Ed25519VerificationKey2020, _ => Other } }
fn sti(t: &SecretType) -> usize { use SecretType::*; match t { JsonWebKey2020 => 0, X25519KeyAgreementKey2019 => 1, Ed25519VerificationKey2018 => 2, EcdsaSecp256k1VerificationKey2019 => 3, X25519KeyAgreementKey2020 => 4, Ed25519VerificationKey2020 => 5, Other => 6 } }
fn strs(v: &[String]) -> Value { Value::Array(v.iter().map(|s| Value::String(s.clone())).collect()) }

/// what a key looks like on the wire
fn j_material(m: &VerificationMaterial, o: &mut Map<String, Value>) { match m {
    VerificationMaterial::JWK { public_key_jwk } => { o.insert("publicKeyJwk".into(), public_key_jwk.clone()); }
    VerificationMaterial::Multibase { public_key_multibase } => { o.insert("publicKeyMultibase".into(), public_key_multibase.clone().into()); }
    VerificationMaterial::Base58 { public_key_base58 } => { o.insert("publicKeyBase58".into(), public_key_base58.clone().into()); } } }
fn j_secret(s: &Secret) -> Value {
    let mut o = Map::new();
    o.insert("id".into(), s.id.clone().into()); o.insert("type".into(), VT[sti(&s.type_)].into());
    match &s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => { o.insert("privateKeyJwk".into(), private_key_jwk.clone()); }
        SecretMaterial::Multibase { private_key_multibase } => { o.insert("privateKeyMultibase".into(), private_key_multibase.clone().into()); }
        SecretMaterial::Base58 { private_key_base58 } => { o.insert("privateKeyBase58".into(), private_key_base58.clone().into()); }
    }
    Value::Object(o)
}
fn j_vm(v: &VerificationMethod) -> Value {
    let mut o = Map::new();
    o.insert("id".into(), v.id.clone().into()); o.insert("type".into(), VT[vti(&v.type_)].into()); o.insert("controller".into(), v.controller.clone().into());
    j_material(&v.verification_material, &mut o);
    Value::Object(o)
}
fn j_svc(s: &Service) -> Value {
    let mut o = Map::new();
    o.insert("id".into(), s.id.clone().into());
    match &s.service_endpoint {
        ServiceKind::DIDCommMessaging { value } => {
            o.insert("type".into(), "DIDCommMessaging".into());
            let mut e = Map::new();
            e.insert("uri".into(), value.uri.clone().into());
            if let Some(a) = &value.accept { e.insert("accept".into(), strs(a)); }
            e.insert("routingKeys".into(), strs(&value.routing_keys));
            o.insert("serviceEndpoint".into(), Value::Object(e));
        }
        ServiceKind::Other { value } => { o.insert("type".into(), "Other".into()); o.insert("serviceEndpoint".into(), value.clone()); }
    }
    Value::Object(o)
}
fn j_doc(d: &DIDDoc) -> Value {
    let mut o = Map::new();
    o.insert("id".into(), d.id.clone().into()); o.insert("keyAgreement".into(), strs(&d.key_agreement)); o.insert("authentication".into(), strs(&d.authentication));
    o.insert("verificationMethod".into(), Value::Array(d.verification_method.iter().map(j_vm).collect()));
    o.insert("service".into(), Value::Array(d.service.iter().map(j_svc).collect()));
    Value::Object(o)
}
fn eq_vm(a: &VerificationMethod, b: &VerificationMethod) -> bool {
    use VerificationMaterial::*;
    a.id == b.id && vti(&a.type_) == vti(&b.type_) && a.controller == b.controller && match (&a.verification_material, &b.verification_material) {
        (JWK { public_key_jwk: x }, JWK { public_key_jwk: y }) => x == y, (Multibase { public_key_multibase: x }, Multibase { public_key_multibase: y }) => x == y,
        (Base58 { public_key_base58: x }, Base58 { public_key_base58: y }) => x == y, _ => false }
}
fn eq_svc(a: &Service, b: &Service) -> bool {
    a.id == b.id && match (&a.service_endpoint, &b.service_endpoint) {
        (ServiceKind::DIDCommMessaging { value: x }, ServiceKind::DIDCommMessaging { value: y }) => x.uri == y.uri && x.accept == y.accept && x.routing_keys == y.routing_keys,
        (ServiceKind::Other { value: x }, ServiceKind::Other { value: y }) => x == y, _ => false }
}
fn eq_secret(a: &Secret, b: &Secret) -> bool {
    use SecretMaterial::*;
    a.id == b.id && sti(&a.type_) == sti(&b.type_) && match (&a.secret_material, &b.secret_material) {
        (JWK { private_key_jwk: x }, JWK { private_key_jwk: y }) => x == y, (Multibase { private_key_multibase: x }, Multibase { private_key_multibase: y }) => x == y,
        (Base58 { private_key_base58: x }, Base58 { private_key_base58: y }) => x == y, _ => false }
}
fn all<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> bool) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| f(x, y)) }
fn eq_doc(a: &DIDDoc, b: &DIDDoc) -> bool {
    a.id == b.id && a.key_agreement == b.key_agreement && a.authentication == b.authentication && all(&a.verification_method, &b.verification_method, eq_vm) && all(&a.service, &b.service, eq_svc)
}
fn material(k: u32, s: &str) -> VerificationMaterial { match k { 0 => VerificationMaterial::JWK { public_key_jwk: json!({"kty": "OKP", "crv": "X25519", "x": s}) }, 1 => VerificationMaterial::Multibase { public_key_multibase: s.into() }, _ => VerificationMaterial::Base58 { public_key_base58: s.into() } } }
fn method(i: usize, k: u32, s: &str) -> VerificationMethod { VerificationMethod { id: gen::format_s("did:x:a#", s), type_: vt(i), controller: gen::format_s("c", s), verification_material: material(k, s) } }
fn dc(uri: &str, accept: Option<Vec<String>>, rk: Vec<String>) -> ServiceKind { ServiceKind::DIDCommMessaging { value: DIDCommMessagingService { uri: uri.into(), accept, routing_keys: rk } } }
fn v(n: u32, s: &str) -> Vec<String> { (0..n).map(|i| match i { 0 => gen::format_s("a", s), 1 => "did:x:m#k".to_string(), _ => gen::format_s("z", s) }).collect() }
fn both(d: &DIDDoc) {
    let e = j_doc(d);
    let t = match serde_json::to_string(d) { Ok(t) => t, Err(_) => { sym::fail(1); return; } };
    match serde_json::from_str::<Value>(&t) { Ok(w) => sym::check(w == e, 2), Err(_) => sym::fail(3) }
    match serde_json::from_str::<DIDDoc>(&t) { Ok(x) => sym::check(eq_doc(&x, d), 4), Err(_) => sym::fail(5) }
    match serde_json::to_value(d) { Ok(w) => sym::check(w == e, 6), Err(_) => sym::fail(7) }
    match serde_json::from_value::<DIDDoc>(e) { Ok(x) => sym::check(eq_doc(&x, d), 8), Err(_) => sym::fail(9) }
    sym::obs_bytes(t.as_bytes());
    sym::reach(1);
}
fn base() -> DIDDoc { DIDDoc { id: "did:x:a".into(), key_agreement: vec![], authentication: vec![], verification_method: vec![], service: vec![] } }
/// lists of every length up to the bound, written and read back
pub fn lists() {
    let s = sym::ident(1);
    let n = sym::by_tier(3, 4);
    let mut d = base();
    d.id = gen::format_s("did:x:", &s);
    d.key_agreement = v(sym::choice(n), &s); d.authentication = v(sym::choice(n), "s");
    for i in 0..sym::choice(n) { d.verification_method.push(method(i as usize * 2, i, &s)); }
    for i in 0..sym::choice(n) { d.service.push(Service { id: ["u", "w", "q"][i as usize].into(), service_endpoint: dc("e", None, vec![]) }); }
    both(&d);
}
/// every kind of key material with every type
pub fn materials() { let s = sym::ident(1); let mut d = base(); d.verification_method.push(method(sym::choice(7) as usize, sym::choice(3), &s)); d.verification_method.push(method(1, sym::choice(3), "o")); both(&d) }
/// every kind of service
pub fn services() {
    let s = sym::ident(1); let n = sym::byte() as u64;
    let mut d = base();
    let k = if sym::flip() { let acc = match sym::choice(4) { 0 => None, i => Some(v(i - 1, &s)) }; dc(&gen::format_s("http://", &s), acc, v(sym::choice(3), &s)) }
        else { let b = gen::body(&s, n); let mut o = Map::new(); o.insert("uri".into(), b); if sym::flip() { o.insert("type".into(), "DIDCommMessaging".into()); o.insert("x".into(), json!([1])); } ServiceKind::Other { value: Value::Object(o) } };
    d.service.push(Service { id: gen::format_s("s", &s), service_endpoint: k });
    if sym::flip() { d.service.push(Service { id: "2".into(), service_endpoint: dc("e", Some(vec![]), vec!["k".into()]) }); }
    both(&d);
}
/// any text in every string position
pub fn texts() {
    let s = sym::utf8(sym::by_tier(2, 3));
    let mut d = base();
    d.verification_method.push(method(0, 1, "o")); d.service.push(Service { id: "s".into(), service_endpoint: dc("e", Some(vec!["q".into()]), vec!["k".into()]) });
    match sym::choice(9) {
        0 => d.id = s, 1 => d.key_agreement.push(s), 2 => d.authentication.push(s), 3 => d.verification_method[0].id = s, 4 => d.verification_method[0].controller = s,
        5 => d.verification_method[0].verification_material = VerificationMaterial::Base58 { public_key_base58: s }, 6 => d.service[0].id = s, 7 => d.service[0].service_endpoint = dc(&s, None, vec![]), _ => d.service[0].service_endpoint = dc("u", Some(vec![s.clone()]), vec![s]),
    }
    both(&d);
}
fn full(s: &str) -> (Value, DIDDoc) {
    let mut d = base();
    d.key_agreement.push("k".into()); d.authentication.push("a".into()); d.verification_method.push(method(0, 0, s)); d.verification_method.push(method(4, 1, s)); d.verification_method.push(method(1, 2, s));
    d.service.push(Service { id: "s".into(), service_endpoint: dc(s, Some(vec!["q".into()]), vec!["k".into()]) }); d.service.push(Service { id: "t".into(), service_endpoint: ServiceKind::Other { value: json!({"z": s}) } });
    (j_doc(&d), d)
}
/// members that the library does not know, at every level, change nothing; optional service members have their defaults
pub fn read() {
    let s = sym::ident(1);
    let (mut j, mut d) = full(&s);
    let name = gen::format_s("zz", &s);
    let x = match sym::choice(3) { 0 => Value::Null, 1 => json!({"a": [1, "b"]}), _ => json!("v") };
    match sym::choice(6) {
        0 => j[name.as_str()] = x,
        1 => j["verificationMethod"][sym::choice(3) as usize][name.as_str()] = x,
        2 => j["service"][sym::choice(2) as usize][name.as_str()] = x,
        3 => j["service"][0]["serviceEndpoint"][name.as_str()] = x,
        4 => { j["service"][0]["serviceEndpoint"].as_object_mut().map(|o| o.remove("accept")); d.service[0].service_endpoint = dc(&s, None, vec!["k".into()]); if sym::flip() { j["service"][0]["serviceEndpoint"]["accept"] = Value::Null; } }
        _ => { j["service"][0]["serviceEndpoint"].as_object_mut().map(|o| o.remove("routingKeys")); d.service[0].service_endpoint = dc(&s, Some(vec!["q".into()]), vec![]); }
    }
    match serde_json::from_str::<DIDDoc>(&j.to_string()) { Ok(y) => { sym::check(eq_doc(&y, &d), 11); sym::reach(1); } Err(_) => sym::fail(12) }
}
/// the same members in any order
pub fn order() {
    let s = sym::ident(1);
    let mut d = base();
    let k = sym::choice(3);
    d.key_agreement.push("k".into());
    d.verification_method.push(method(3, k, &s)); d.service.push(Service { id: "s".into(), service_endpoint: dc(&s, Some(vec!["q".into()]), vec!["k".into()]) });
    let j = j_doc(&d);
    let perm = |o: &Value| -> String { let m = match o.as_object() { Some(m) => m, None => return String::new() }; let mut ks: Vec<(&String, &Value)> = m.iter().collect(); let mut t = String::from("{"); while !ks.is_empty() { let i = sym::choice(ks.len() as u32) as usize; let (k, v) = ks.remove(i); if t.len() > 1 { t.push(','); } t.push('"'); t.push_str(k); t.push_str("\":"); t.push_str(&v.to_string()); } t.push('}'); t };
    let t = match sym::choice(4) {
        0 => perm(&j),
        1 => ["{\"id\":\"did:x:a\",\"keyAgreement\":[\"k\"],\"authentication\":[],\"service\":", j["service"].to_string().as_str(), ",\"verificationMethod\":[", perm(&j["verificationMethod"][0]).as_str(), "]}"].concat(),
        2 => ["{\"id\":\"did:x:a\",\"keyAgreement\":[\"k\"],\"authentication\":[],\"verificationMethod\":", j["verificationMethod"].to_string().as_str(), ",\"service\":[", perm(&j["service"][0]).as_str(), "]}"].concat(),
        _ => ["{\"id\":\"did:x:a\",\"keyAgreement\":[\"k\"],\"authentication\":[],\"verificationMethod\":", j["verificationMethod"].to_string().as_str(), ",\"service\":[{\"id\":\"s\",\"serviceEndpoint\":", perm(&j["service"][0]["serviceEndpoint"]).as_str(), ",\"type\":\"DIDCommMessaging\"}]}"].concat(),
    };
    match serde_json::from_str::<DIDDoc>(&t) { Ok(y) => { sym::check(eq_doc(&y, &d), 21); sym::reach(1); } Err(_) => sym::fail(22) }
}
/// a missing or ill-typed required member is an error, nothing is made up; a type name counts only when exact
pub fn broken() {
    let s = sym::ident(1);
    let (mut j, _) = full("o");
    match sym::choice(4) {
        0 => {
            let (p, f) = [("", "id"), ("", "keyAgreement"), ("", "authentication"), ("", "verificationMethod"), ("", "service"), ("/verificationMethod/0", "id"), ("/verificationMethod/0", "type"), ("/verificationMethod/0", "controller"), ("/verificationMethod/0", "publicKeyJwk"), ("/verificationMethod/1", "publicKeyMultibase"), ("/verificationMethod/2", "publicKeyBase58"), ("/service/0", "id"), ("/service/0", "type"), ("/service/0", "serviceEndpoint"), ("/service/0/serviceEndpoint", "uri")][sym::choice(15) as usize];
            if let Some(o) = j.pointer_mut(p).and_then(|o| o.as_object_mut()) { o.remove(f); match sym::choice(4) { 0 => (), 1 => { o.insert([f, s.as_str()].concat(), json!("x")); } 2 => { if f == "publicKeyJwk" { return; } o.insert(f.into(), json!(5)); } _ => { if f == "publicKeyJwk" { return; } o.insert(f.into(), json!([5])); } } }
        }
        1 => { let t = VT[sym::choice(7) as usize]; let q = sym::choice(t.len() as u32) as usize; if s.as_bytes()[0] == t.as_bytes()[q] { return; } j["verificationMethod"][0]["type"] = [&t[..q], s.as_str(), &t[q + 1..]].concat().into(); }
        2 => { let t = "DIDCommMessaging"; let q = sym::choice(t.len() as u32) as usize; if s.as_bytes()[0] == t.as_bytes()[q] { return; } j["service"][0]["type"] = [&t[..q], s.as_str(), &t[q + 1..]].concat().into(); }
        _ => { let t = VT[sym::choice(7) as usize]; j["verificationMethod"][0]["type"] = match sym::choice(3) { 0 => [t, s.as_str()].concat().into(), 1 => [s.as_str(), t].concat().into(), _ => t.to_lowercase().into() }; }
    }
    match serde_json::from_str::<DIDDoc>(&j.to_string()) { Ok(_) => sym::fail(31), Err(e) => { sym::obs(e.is_data() as u64); sym::reach(1); } }
}
fn s_both(x: &Secret) {
    let e = j_secret(x);
    let t = match serde_json::to_string(x) { Ok(t) => t, Err(_) => { sym::fail(41); return; } };
    match serde_json::from_str::<Value>(&t) { Ok(w) => sym::check(w == e, 42), Err(_) => sym::fail(43) }
    match serde_json::from_str::<Secret>(&t) { Ok(y) => sym::check(eq_secret(&y, x), 44), Err(_) => sym::fail(45) }
    match serde_json::from_value::<Secret>(e) { Ok(y) => sym::check(eq_secret(&y, x), 46), Err(_) => sym::fail(47) }
    sym::obs_bytes(t.as_bytes());
    sym::reach(1);
}
fn smat(k: u32, s: String) -> SecretMaterial { match k { 0 => SecretMaterial::JWK { private_key_jwk: json!({"kty": "OKP", "d": s}) }, 1 => SecretMaterial::Multibase { private_key_multibase: s }, _ => SecretMaterial::Base58 { private_key_base58: s } } }
/// secrets of every type with every kind of material and any text
pub fn secrets() { let s = sym::utf8(sym::by_tier(2, 3)); let x = if sym::flip() { Secret { id: s, type_: st(sym::choice(7) as usize), secret_material: smat(sym::choice(3), "m".into()) } } else { Secret { id: "i".into(), type_: st(sym::choice(7) as usize), secret_material: smat(sym::choice(3), s) } }; s_both(&x) }
/// secrets read with unknown members, and broken ones refused
pub fn secrets_read() {
    let s = sym::ident(1);
    let k = sym::choice(3);
    let x = Secret { id: "i".into(), type_: st(sym::choice(7) as usize), secret_material: smat(k, s.clone()) };
    let mut j = j_secret(&x);
    let f = ["privateKeyJwk", "privateKeyMultibase", "privateKeyBase58"][k as usize];
    match sym::choice(4) {
        0 => { j[gen::format_s("zz", &s)] = json!({"a": 1}); match serde_json::from_str::<Secret>(&j.to_string()) { Ok(y) => { sym::check(eq_secret(&y, &x), 51); sym::reach(1); } Err(_) => sym::fail(52) } return; }
        1 => { let g = ["id", "type", f][sym::choice(3) as usize]; j.as_object_mut().map(|o| o.remove(g)); if sym::flip() { j[[g, s.as_str()].concat()] = json!("x"); } }
        2 => { let g = if k == 0 { 2 } else { 3 }; let g = ["id", "type", f][sym::choice(g) as usize]; j[g] = json!(7); }
        _ => { let t = VT[sti(&x.type_)]; let q = sym::choice(t.len() as u32) as usize; if s.as_bytes()[0] == t.as_bytes()[q] { return; } j["type"] = [&t[..q], s.as_str(), &t[q + 1..]].concat().into(); }
    }
    match serde_json::from_str::<Secret>(&j.to_string()) { Ok(_) => sym::fail(53), Err(_) => sym::reach(2) }
}
/// members with other plausible names mean nothing: the required member stays missing, the optional one keeps its default
pub fn names() {
    let s = sym::ident(1);
    let (mut j, mut d) = full(&s);
    let str_ = |t: &str| Value::String(t.to_string());
    match sym::choice(3) {
        0 => { // optional members of a service
            const N: &[&str] = &["accepts", "Accept", "profiles", "accept_", "routing_keys", "routingkeys", "RoutingKeys", "routingKey", "recipientKeys", "priority", "type", "id", "URI", "url", ""];
            let n = N[sym::choice(N.len() as u32) as usize];
            let e = j["service"][0]["serviceEndpoint"].as_object_mut();
            if let Some(o) = e { if sym::flip() { o.remove("accept"); o.remove("routingKeys"); d.service[0].service_endpoint = dc(&s, None, vec![]); } o.insert(n.into(), json!([s.clone(), "x"])); }
            match serde_json::from_str::<DIDDoc>(&j.to_string()) { Ok(y) => { sym::check(eq_doc(&y, &d), 61); sym::reach(1); } Err(_) => sym::fail(62) }
        }
        1 => { // required members under another name, or beside the right one
            const N: &[(&str, &str, &[&str])] = &[
                ("", "id", &["@id", "did", "Id", "_id", "subject"]), ("", "keyAgreement", &["key_agreement", "keyAgreements", "keyagreement", "KeyAgreement", "assertionMethod"]), ("", "authentication", &["authentications", "Authentication", "assertionMethod", "authenticationMethod"]),
                ("", "verificationMethod", &["verification_method", "verificationMethods", "publicKey", "publicKeys", "VerificationMethod"]), ("", "service", &["services", "Service", "serviceEndpoint"]),
                ("/verificationMethod/0", "id", &["kid", "@id", "Id", "keyId"]), ("/verificationMethod/0", "type", &["@type", "type_", "Type", "kty"]), ("/verificationMethod/0", "controller", &["owner", "Controller", "controllers"]),
                ("/service/0", "id", &["@id", "Id", "kid"]), ("/service/0", "type", &["@type", "type_", "kind"]), ("/service/0", "serviceEndpoint", &["service_endpoint", "endpoint", "serviceendpoint", "value", "serviceEndpoints"]),
                ("/service/0/serviceEndpoint", "uri", &["url", "URI", "serviceEndpoint", "endpoint", "s"]),
            ];
            let (p, f, alt) = N[sym::choice(N.len() as u32) as usize];
            let a = alt[sym::choice(alt.len() as u32) as usize];
            let beside = sym::flip();
            if let Some(o) = j.pointer_mut(p).and_then(|o| o.as_object_mut()) {
                let v = o.get(f).cloned().unwrap_or_default();
                if beside { o.insert(a.into(), match v { Value::String(_) => str_("other"), Value::Array(_) => json!([]), x => x }); } else { o.remove(f); o.insert(a.into(), v); }
            }
            match serde_json::from_str::<DIDDoc>(&j.to_string()) { Ok(y) => { sym::check(beside && eq_doc(&y, &d), 63); sym::reach(2); } Err(_) => { sym::check(!beside, 64); sym::reach(3); } }
        }
        _ => { // key material under another name is no key material
            const N: &[&str] = &["publicKeyHex", "publicKeyBase64", "publicKeyPem", "publicKeyMultiBase", "publicKeyJWK", "public_key_jwk", "public_key_multibase", "public_key_base58", "publicKey", "ethereumAddress", "blockchainAccountId", "jwk", "multibase", "base58", "value", "privateKeyJwk", "privateKeyMultibase", "privateKeyBase58", ""];
            let i = sym::choice(3) as usize; let f = ["publicKeyJwk", "publicKeyMultibase", "publicKeyBase58"][i];
            if let Some(o) = j["verificationMethod"][i].as_object_mut() { let v = o.remove(f).unwrap_or_default(); o.insert(N[sym::choice(N.len() as u32) as usize].into(), v); }
            match serde_json::from_str::<DIDDoc>(&j.to_string()) { Ok(_) => sym::fail(65), Err(_) => sym::reach(3) }
        }
    }
}
/// the same for secrets
pub fn secret_names() {
    let s = sym::ident(1); let k = sym::choice(3);
    let x = Secret { id: "i".into(), type_: st(sym::choice(7) as usize), secret_material: smat(k, s.clone()) };
    let mut j = j_secret(&x);
    const ID: &[&str] = &["kid", "@id", "Id", "_id", "keyId", "controller"];
    const TY: &[&str] = &["@type", "type_", "Type", "kty"];
    const M: &[&str] = &["privateKeyHex", "privateKeyBase64", "privateKeyPem", "privateKeyMultiBase", "privateKeyJWK", "private_key_jwk", "private_key_multibase", "private_key_base58", "privateKey", "secret", "secretKey", "secretMaterial", "secret_material", "jwk", "value", "publicKeyJwk", "publicKeyMultibase", "publicKeyBase58", ""];
    let f = ["privateKeyJwk", "privateKeyMultibase", "privateKeyBase58"][k as usize];
    let (f, l) = match sym::choice(3) { 0 => ("id", ID), 1 => ("type", TY), _ => (f, M) };
    let n = l[sym::choice(l.len() as u32) as usize];
    let beside = sym::flip();
    if let Some(o) = j.as_object_mut() { let v = if beside { json!("other") } else { o.remove(f).unwrap_or_default() }; o.insert(n.into(), v); }
    match serde_json::from_str::<Secret>(&j.to_string()) { Ok(y) => { sym::check(beside && eq_secret(&y, &x), 71); sym::reach(1); } Err(_) => { sym::check(!beside, 72); sym::reach(2); } }
}
