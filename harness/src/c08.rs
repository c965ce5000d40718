use crate::{craft::*, fix::*, sym};
use didcomm::did::*;
use didcomm::*;

fn unpack(j: &str, d: &Dids, s: &Secs) -> std::result::Result<(Message, UnpackMetadata), u64> { run(Message::unpack(j, d, s, &UnpackOptions::default())).map_err(|e| kcode(e.kind())) }
fn world() -> (Dids, Secs) {
    let a = Who::new("did:x:a").ka("k", Kt::X, 1).auth("s", Kt::Ed, 2);
    let b = Who::new("did:x:b").ka("1", Kt::X, 3);
    (Dids::new(vec![a.doc(), b.doc()]), Secs::new(b.secrets()))
}
/// kinds: 0 plaintext, 1 signed, 2 anonymous, 3 authenticated
fn sample(k: u32, text: &[u8]) -> String {
    match k {
        0 => String::from_utf8(text.to_vec()).unwrap_or_default(),
        1 => Jws::new(Kt::Ed, 2, "did:x:a#s", text).json(),
        2 => Enc::new(Kt::X, Ce::Xc, &[("did:x:b#1", 3)]).pack(text),
        _ => Enc::new(Kt::X, Ce::Cbc, &[("did:x:b#1", 3)]).from("did:x:a#k", 1).pack(text),
    }
}
fn malformed(t: &str, d: &Dids, s: &Secs, code: u32) {
    match unpack(t, d, s) { Ok(_) => sym::fail(code), Err(k) => { sym::obs(k); sym::check(k == 4, code + 1); sym::reach(1); } }
}
/// whatever the input, the outcome is a message or an error other than an internal one
fn sane(t: &str, d: &Dids, s: &Secs, code: u32) {
    match unpack(t, d, s) { Ok(_) => sym::reach(2), Err(k) => { sym::obs(k); sym::check(k != 6, code); sym::reach(1); } }
}

/// every string of up to 2 (thorough 3) bytes of UTF-8
pub fn short() {
    let (d, s) = world();
    let n = sym::choice(sym::by_tier(3, 4)) as usize;
    let t = sym::utf8(n);
    malformed(&t, &d, &s, 10);
}

/// every string of JSON structure characters, with literals and a string in place of single characters
pub fn tokens() {
    let (d, s) = world();
    let n = 1 + sym::choice(sym::by_tier(4, 5)) as usize;
    let mut t = String::new();
    for _ in 0..n { t.push_str(match sym::choice(9) { 0 => "{", 1 => "}", 2 => "[", 3 => "]", 4 => ":", 5 => ",", 6 => "\"id\"", 7 => "1", _ => "\"protected\"" }); }
    malformed(&t, &d, &s, 20);
}

/// well-formed messages of every kind cut at every position
pub fn cut() {
    let (d, s) = world();
    let k = sym::choice(4);
    let t = sample(k, plain("{\"a\":[1,\"x\",null,true]}").as_bytes());
    let n = sym::choice(t.len() as u32) as usize;
    malformed(&t[..n], &d, &s, 30);
    sym::reach(10 + k);
}

/// the JSON inside the protected header, the decrypted or the signed payload cut at every position, or any bytes
pub fn inner() {
    let (d, s) = world();
    let k = 1 + sym::choice(3);
    let what = sym::choice(3);
    let full = plain("{}");
    match what {
        0 => { // payload cut
            let n = sym::choice(full.len() as u32) as usize;
            malformed(&sample(k, full[..n].as_bytes()), &d, &s, 40);
        }
        1 => { // payload is any bytes, UTF-8 or not
            let n = sym::choice(sym::by_tier(3, 4)) as usize;
            let b = sym::vec(n);
            malformed(&sample(k, &b), &d, &s, 42);
        }
        _ => { // protected header cut
            let t = sample(k, full.as_bytes());
            if k == 1 {
                let mut j = match Jws::read(&t) { Some(j) => j, None => return };
                let h = unb64(&j.sigs[0].1);
                let n = sym::choice(h.len() as u32) as usize;
                j.sigs[0].1 = b64(&h[..n]);
                malformed(&j.json(), &d, &s, 44);
            } else {
                let mut j = match Jwe::read(&t) { Some(j) => j, None => return };
                let h = unb64(&j.protected);
                let n = sym::choice(h.len() as u32) as usize;
                j.protected = b64(&h[..n]);
                malformed(&j.json(), &d, &s, 46);
            }
        }
    }
    sym::reach(10 + what);
}

/// any character(s) anywhere in a message of any kind
pub fn window() {
    let (d, s) = world();
    let k = sym::choice(4);
    let body = "{\"a\":[1e5,\"x\\u0041\",null]}";
    let t = match k { 0 => ["{\"id\":\"i\",\"typ\":\"application/didcomm-plain+json\",\"type\":\"t\",\"body\":", body, ",\"from\":\"f\",\"to\":[\"a\"],\"created_time\":1,\"expires_time\":18446744073709551615,\"attachments\":[{\"data\":{\"base64\":\"YQ\"},\"byte_count\":2}]}"].concat(), _ => sample(k, plain("{}").as_bytes()) };
    let st = if k == 0 { sym::by_tier(1, 1) } else { sym::by_tier(3, 1) } as usize;
    let w = 1usize;
    let q = (sym::choice(((t.len() - w) / st + 1) as u32) as usize) * st;
    let c = sym::ascii(w);
    let t = [&t[..q], c.as_str(), &t[q + w..]].concat();
    sane(&t, &d, &s, 50);
    sym::reach(10 + k);
}

/// header and recipient shapes of an encrypted envelope that an attacker controls
pub fn shapes() {
    let (d, s) = world();
    let auth = sym::flip();
    let mut e = Enc::new(Kt::X, if auth { Ce::Cbc } else { Ce::Xc }, &[("did:x:b#1", 3)]);
    if auth { e = e.from("did:x:a#k", 1); }
    let mut recips = 0;
    match sym::choice(9) {
        0 => e.h_typ = Some(sym::opt(|| sym::ident(1))),
        1 => e.h_alg = Some(match sym::choice(4) { 0 => "".into(), 1 => ES.into(), 2 => PU.into(), _ => sym::ident(1) }),
        2 => e.h_enc = Some(match sym::choice(5) { 0 => "".into(), 1 => "A256GCM".into(), 2 => "XC20P".into(), 3 => "A256CBC-HS512".into(), _ => sym::ident(1) }),
        3 => e.h_apu = Some(sym::opt(|| sym::vec(1))),
        4 => e.h_skid = Some(sym::opt(|| sym::ident(1))),
        5 => e.h_apv = Some({ let n = sym::choice(2) as usize; sym::vec(n) }),
        6 => e.h_epk = Some(match sym::choice(12) {
            0 => "{}".into(), 1 => "null".into(), 2 => "1".into(), 3 => "\"x\"".into(), 4 => "[]".into(),
            5 => Enc::epk_json(Kt::P, 200), 6 => "{\"kty\":\"OKP\",\"crv\":\"X25519\"}".into(), 7 => "{\"kty\":\"OKP\",\"crv\":\"X25519\",\"x\":\"\"}".into(),
            8 => "{\"kty\":\"EC\",\"crv\":\"P-256\",\"x\":\"AA\",\"y\":\"AA\"}".into(), 9 => jwk(Kt::Ed, 7, false).to_string(), 10 => jwk(Kt::X, 7, true).to_string(),
            _ => { let b = sym::vec(1); let mut x = pk(Kt::X, 200); x[3 + 9 * sym::choice(4) as usize] = b[0]; jwk_of(Kt::X, &x, None).to_string() }
        }),
        7 => e.extra = match sym::choice(4) { 0 => ",\"zip\":\"DEF\"", 1 => ",\"alg\":\"x\"", 2 => ",\"crit\":[\"exp\"]", _ => ",\"exp\":1e999" }.into(),
        _ => recips = 1 + sym::choice(7),
    }
    let mut j = e.parts(plain("1").as_bytes());
    match recips { 1 => j.recipients.clear(), 2 => j.recipients[0].1 = "".into(), 3 => j.recipients[0].1 = "A".into(), 4 => j.recipients[0].1 = "====".into(), 5 => j.recipients[0].0 = "".into(), 6 => j.recipients[0].1 = "AAAAAAAA".into(), 7 => { let r = j.recipients[0].clone(); j.recipients.push(r); } _ => {} }
    match sym::choice(5) { 1 => j.iv = "".into(), 2 => j.tag = "".into(), 3 => j.ciphertext = "".into(), 4 => { j.iv = "AA".into(); j.tag = "AA".into(); } _ => {} }
    sane(&j.json(), &d, &s, 60);
}

/// from_prior tokens: any short string, cut tokens, any character in a token
pub fn token() {
    let (d, s) = world();
    let iss = "{\"iss\":\"did:x:a\",\"sub\":\"did:x:n\"}";
    let good = jwt(Kt::Ed, 2, &jwt_header("JWT", "EdDSA", "did:x:a#s"), iss.as_bytes());
    let how = sym::choice(5);
    let mut bad = true;
    let t = match how {
        0 => { let n = sym::choice(sym::by_tier(4, 5)) as usize; sym::utf8(n) }
        1 => { let n = sym::choice(good.len() as u32) as usize; good[..n].to_string() }
        2 => { let q = sym::choice(good.len() as u32) as usize; let c = sym::ascii(1); bad = c != good[q..q + 1]; [&good[..q], c.as_str(), &good[q + 1..]].concat() }
        3 => { let n = sym::choice(iss.len() as u32) as usize; jwt(Kt::Ed, 2, &jwt_header("JWT", "EdDSA", "did:x:a#s"), iss[..n].as_bytes()) }
        _ => { let h = jwt_header("JWT", "EdDSA", "did:x:a#s"); let n = sym::choice(h.len() as u32) as usize; jwt(Kt::Ed, 2, &h[..n], iss.as_bytes()) }
    };
    let alone = sym::flip();
    let r = if alone { run(FromPrior::unpack(&t, &d)).map(|_| ()).map_err(|e| kcode(e.kind())) } else {
        let m = Message::build("i".into(), "t".into(), serde_json::Value::Null).from_prior(t).finalize();
        let p = serde_json::to_string(&m).unwrap_or_default();
        unpack(&p, &d, &s).map(|_| ())
    };
    match r {
        Ok(_) => { sym::check(!bad, 70); sym::reach(2); }
        Err(k) => { sym::obs(k); sym::check(bad && k != 6, 71); if how != 2 { sym::check(k == 4, 72); } sym::reach(1); }
    }
    sym::reach(10 + how);
}

/// JSON nested to any depth around the parser's limit, in every place that accepts free JSON
pub fn depth() {
    let (d, s) = world();
    let n = [1usize, 100, 125, 126, 127, 128, 129, 200, 1000][sym::choice(9) as usize];
    let mut v = String::new();
    let arr = sym::flip();
    for _ in 0..n { v.push_str(if arr { "[" } else { "{\"a\":" }); }
    v.push_str("1");
    if sym::flip() { for _ in 0..n { v.push_str(if arr { "]" } else { "}" }); } }
    let t = match sym::choice(4) {
        0 => plain(&v),
        1 => ["{\"id\":\"i\",\"typ\":\"application/didcomm-plain+json\",\"type\":\"t\",\"body\":1,\"attachments\":[{\"data\":{\"json\":", v.as_str(), "}}]}"].concat(),
        2 => { let mut e = Enc::new(Kt::X, Ce::Xc, &[("did:x:b#1", 3)]); e.h_epk = Some(v.clone()); e.pack(plain("1").as_bytes()) }
        _ => v.clone(),
    };
    sane(&t, &d, &s, 80);
}

/// every name a received message can state, assembled from separators, a known DID, multi-byte characters and any visible character, with and without a document that lists it
pub fn names() {
    let n = sym::choice(sym::by_tier(4, 5)) as usize;
    let mut t = String::new();
    for i in 0..n { match sym::choice(6) { 0 => t.push('#'), 1 => t.push_str("did:x:a"), 2 => t.push('\u{e9}'), 3 => t.push('\u{1f600}'), 4 => t.push(':'), _ => if i + 1 == n { t.push_str(&sym::ident(1)) } else { t.push('x') } } }
    let did = match t.split_once('#') { Some((d, _)) => d.to_string(), None => t.clone() };
    let what = sym::choice(9);
    let (kt, seed) = if (4..8).contains(&what) { (Kt::Ed, 2) } else { (Kt::X, 9) };
    let b = Who::new("did:x:b").ka("1", Kt::X, 3); let a = Who::new("did:x:a").ka("k", Kt::X, 1).auth("s", Kt::Ed, 2);
    let (mut docs, mut sec) = (vec![b.doc()], b.secrets());
    if sym::flip() { docs.insert(0, DIDDoc { id: did, key_agreement: vec![t.clone()], authentication: vec![t.clone()], verification_method: vec![vm(&t, kt, seed)], service: vec![] }); sec.push(secret(&t, kt, seed)); } else { docs.insert(0, a.doc()); }
    let (d, s) = (Dids::new(docs), Secs::new(sec));
    let tok = |kid: &str, iss: &str, sub: &str| jwt(Kt::Ed, 2, &jwt_header("JWT", "EdDSA", kid), ["{\"iss\":\"", iss, "\",\"sub\":\"", sub, "\"}"].concat().as_bytes());
    let m = match what {
        0 => Enc::new(Kt::X, Ce::Cbc, &[("did:x:b#1", 3)]).from(&t, 9).pack(plain("1").as_bytes()),
        1 => { let mut e = Enc::new(Kt::X, Ce::Cbc, &[("did:x:b#1", 3)]).from(&t, 9); e.h_skid = Some(None); e.pack(plain("1").as_bytes()) }
        2 => Enc::new(Kt::X, Ce::Xc, &[(&t, 9)]).pack(plain("1").as_bytes()),
        3 => Enc::new(Kt::X, Ce::Xc, &[("did:x:b#1", 3), (&t, 9)]).pack(plain("1").as_bytes()),
        4 => Jws::new(Kt::Ed, 2, &t, plain("1").as_bytes()).json(),
        5 => ["{\"id\":\"i\",\"type\":\"t\",\"body\":1,\"from_prior\":\"", tok(&t, "did:x:a", "did:x:n").as_str(), "\"}"].concat(),
        6 => ["{\"id\":\"i\",\"type\":\"t\",\"body\":1,\"from_prior\":\"", tok("did:x:a#s", &t, "did:x:n").as_str(), "\"}"].concat(),
        7 => ["{\"id\":\"i\",\"type\":\"t\",\"body\":1,\"from_prior\":\"", tok("did:x:a#s", "did:x:a", &t).as_str(), "\"}"].concat(),
        _ => { let f = ["{\"id\":\"f\",\"type\":\"https://didcomm.org/routing/2.0/forward\",\"body\":{\"next\":\"", t.as_str(), "\"},\"attachments\":[{\"data\":{\"json\":{}}}]}"].concat(); Enc::new(Kt::X, Ce::Xc, &[("did:x:b#1", 3)]).pack(f.as_bytes()) }
    };
    match run(Message::unpack(&m, &d, &s, &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: true })) { Ok(_) => sym::reach(2), Err(e) => { sym::check(kcode(e.kind()) != 6, 90); sym::reach(1); } }
    sym::reach(10 + what);
}
