use crate::{craft::*, fix::*, sym};
use didcomm::algorithms::*;
use didcomm::*;
use serde_json::Value;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum L { Anon, Auth, Sign }
fn l(i: u32) -> L { match i { 0 => L::Anon, 1 => L::Auth, _ => L::Sign } }
fn anon_of(c: Ce) -> AnonCryptAlg { match c { Ce::Cbc => AnonCryptAlg::A256cbcHs512EcdhEsA256kw, Ce::Xc => AnonCryptAlg::Xc20pEcdhEsA256kw, Ce::Gcm => AnonCryptAlg::A256gcmEcdhEsA256kw } }
fn sgn(t: Kt) -> SignAlg { match t { Kt::Ed => SignAlg::EdDSA, Kt::P => SignAlg::ES256, _ => SignAlg::ES256K } }

struct World { d: Dids, s: Secs, ct: Kt, st: Kt, c: Ce, kids: Vec<(String, u8)> }
fn world(n: usize, c: Ce, ct: Kt, st: Kt) -> World {
    let a = Who::new("did:x:a").ka("k", ct, 1).auth("s", st, 2);
    let mut b = Who::new("did:x:b").ka("1", ct, 3);
    if n > 1 { b = b.ka("2", ct, 4); }
    let kids = b.ka.iter().map(|k| (k.0.clone(), k.2)).collect();
    World { d: Dids::new(vec![a.doc(), b.doc()]), s: Secs::new(b.secrets()), ct, st, c, kids }
}
fn layer(w: &World, x: L, text: &str, eph: u8) -> String {
    let kids: Vec<(&str, u8)> = w.kids.iter().map(|k| (k.0.as_str(), k.1)).collect();
    match x {
        L::Anon => { let mut e = Enc::new(w.ct, w.c, &kids); e.eph = eph; e.pack(text.as_bytes()) }
        L::Auth => { let mut e = Enc::new(w.ct, Ce::Cbc, &kids).from("did:x:a#k", 1); e.eph = eph; e.pack(text.as_bytes()) }
        L::Sign => Jws::new(w.st, 2, "did:x:a#s", text.as_bytes()).json(),
    }
}
fn valid(ls: &[L]) -> bool { matches!(ls, [] | [L::Anon] | [L::Auth] | [L::Sign] | [L::Anon, L::Auth] | [L::Anon, L::Sign] | [L::Auth, L::Sign] | [L::Anon, L::Auth, L::Sign]) }
fn expect(w: &World, ls: &[L], md: &UnpackMetadata, jws: &Option<String>) -> bool {
    let has = |x: L| ls.contains(&x);
    let (an, au, si) = (has(L::Anon), has(L::Auth), has(L::Sign));
    let kids: Vec<String> = w.kids.iter().map(|k| k.0.clone()).collect();
    *md == UnpackMetadata {
        encrypted: an || au, authenticated: au || si, non_repudiation: si, anonymous_sender: an, re_wrapped_in_forward: false,
        encrypted_from_kid: if au { Some("did:x:a#k".into()) } else { None }, encrypted_to_kids: if an || au { Some(kids) } else { None },
        sign_from: if si { Some("did:x:a#s".into()) } else { None }, from_prior_issuer_kid: None,
        enc_alg_auth: if au { Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw) } else { None }, enc_alg_anon: if an { Some(anon_of(w.c)) } else { None },
        sign_alg: if si { Some(sgn(w.st)) } else { None }, signed_message: jws.clone(), from_prior: None,
    }
}
fn build(w: &World, ls: &[L], inner: &str) -> (String, Option<String>) {
    let mut t = String::from(inner);
    let mut jws = None;
    for (i, x) in ls.iter().enumerate().rev() { t = layer(w, *x, &t, 200 + i as u8); if *x == L::Sign { jws = Some(t.clone()); } }
    (t, jws)
}
fn stacks(max: u32) -> Vec<L> { let n = sym::choice(max + 1); (0..n).map(|_| l(sym::choice(3))).collect() }

/// every stack of up to 3 (thorough 4) layers: defined ones give exactly the layers, others are rejected
pub fn nesting() {
    let ls = stacks(sym::by_tier(3, 4));
    let w = world(1 + sym::choice(2) as usize, ce(sym::choice(3)), kt(sym::choice(2)), match sym::choice(3) { 0 => Kt::Ed, 1 => Kt::P, _ => Kt::K });
    let s = sym::ident(1);
    let b = ["\"", s.as_str(), "\""].concat();
    let (t, jws) = build(&w, &ls, &plain(&b));
    let o = UnpackOptions { expect_decrypt_by_all_keys: sym::flip(), unwrap_re_wrapping_forward: sym::flip() };
    match run(Message::unpack(&t, &w.d, &w.s, &o)) {
        Ok((m, md)) => { sym::check(valid(&ls), 10); sym::check(expect(&w, &ls, &md, &jws), 11); sym::check(m.body == Value::String(s), 12); sym::reach(1 + ls.len() as u32); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(!valid(&ls), 13); sym::reach(10); }
    }
}

/// a layer in the stack that does not verify: never a message
pub fn broken() {
    let ls = stacks(3);
    if ls.is_empty() || !valid(&ls) { return; }
    let w = world(1, ce(sym::choice(3)), Kt::X, Kt::Ed);
    let bad = sym::choice(ls.len() as u32) as usize;
    let mut t = plain("1");
    for (i, x) in ls.iter().enumerate().rev() {
        t = layer(&w, *x, &t, 200 + i as u8);
        if i != bad { continue; }
        let v = sym::byte();
        sym::assume(v != 0);
        match x {
            L::Sign => { let mut j = match Jws::read(&t) { Some(j) => j, None => return }; let mut q = unb64(&j.sigs[0].2); q[5] ^= v; j.sigs[0].2 = b64(&q); t = j.json(); }
            _ => { let mut j = match Jwe::read(&t) { Some(j) => j, None => return }; let f = sym::choice(3); let p = match f { 0 => &mut j.ciphertext, 1 => &mut j.tag, _ => &mut j.recipients[0].1 }; let mut q = unb64(p); q[3] ^= v; *p = b64(&q); t = j.json(); }
        }
    }
    match run(Message::unpack(&t, &w.d, &w.s, &UnpackOptions::default())) { Ok(_) => sym::fail(20), Err(e) => { sym::obs(kcode(e.kind())); sym::reach(1); } }
}

/// an envelope that also carries the fields of another kind of message: what is reported is what was verified
pub fn polyglot() {
    let w = world(1, Ce::Xc, Kt::X, Kt::Ed);
    let x = l(sym::choice(3));
    let t = layer(&w, x, &plain("1"), 200);
    let extra = match sym::choice(4) {
        0 => "\"id\":\"o\",\"typ\":\"application/didcomm-plain+json\",\"type\":\"t\",\"body\":2,",
        1 => "\"id\":\"o\",\"type\":\"t\",\"body\":2,",
        2 => "\"signatures\":[],\"payload\":\"\",",
        _ => "\"protected\":\"\",\"recipients\":[],\"iv\":\"\",\"ciphertext\":\"\",\"tag\":\"\",",
    };
    // envelope fields broken by a wrong algorithm name, or intact
    let mangle = sym::flip();
    let t = if mangle {
        match x { L::Sign => { let mut j = match Jws::read(&t) { Some(j) => j, None => return }; j.sigs[0].1 = b64(sig_header("none").as_bytes()); j.json() }
            _ => { let mut j = match Jwe::read(&t) { Some(j) => j, None => return }; let h = String::from_utf8(unb64(&j.protected)).unwrap_or_default(); j.protected = b64(h.replace("A256KW", "A128KW").as_bytes()); j.json() } }
    } else { t };
    let t = ["{", extra, &t[1..]].concat();
    match run(Message::unpack(&t, &w.d, &w.s, &UnpackOptions::default())) {
        Ok((m, md)) => {
            if m.body == Value::from(1) { sym::check(!mangle && (md.encrypted == (x != L::Sign)) && (md.authenticated == (x != L::Anon)) && (md.non_repudiation == (x == L::Sign)) && (md.anonymous_sender == (x == L::Anon)), 30); sym::reach(1); }
            else { sym::check(!md.encrypted && !md.authenticated && !md.non_repudiation && !md.anonymous_sender && md.sign_from.is_none() && md.encrypted_from_kid.is_none() && md.signed_message.is_none() && md.enc_alg_anon.is_none() && md.enc_alg_auth.is_none() && md.sign_alg.is_none(), 31); sym::reach(2); }
        }
        Err(e) => { sym::obs(kcode(e.kind())); sym::reach(3); }
    }
}

/// forwards re-wrapped for the recipient around any stack: the flag is set exactly when unwrapping happened and the inner layers are still exact
pub fn rewrapped() {
    let ls = stacks(sym::by_tier(2, 3));
    let w = world(1, ce(sym::choice(3)), Kt::X, Kt::Ed);
    let (inner, jws) = build(&w, &ls, &plain("1"));
    let depth = 1 + sym::choice(2);
    let next = match sym::choice(4) { 0 => "did:x:b", 1 => "did:x:b#1", 2 => "did:x:b#none", _ => "did:x:a" };
    let mine = next == "did:x:b" || next == "did:x:b#1";
    let outer = l(sym::choice(3));
    let mut t = inner;
    let n = depth;
    for i in 0..n {
        let f = ["{\"id\":\"f\",\"typ\":\"application/didcomm-plain+json\",\"type\":\"https://didcomm.org/routing/2.0/forward\",\"body\":{\"next\":\"", next, "\"},\"attachments\":[{\"data\":{\"json\":", t.as_str(), "}}]}"].concat();
        // only the outermost wrapper varies
        t = layer(&w, if i + 1 == n { outer } else { L::Anon }, &f, 210 + i as u8);
    }
    let unwrap = sym::flip();
    let r = run(Message::unpack(&t, &w.d, &w.s, &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: unwrap }));
    let through = unwrap && mine && outer == L::Anon;
    match r {
        Ok((m, md)) => {
            if !through {
                sym::check(m.type_ == "https://didcomm.org/routing/2.0/forward", 40);
                sym::check(!md.re_wrapped_in_forward, 41);
                sym::check(md.encrypted == (outer != L::Sign) && md.authenticated == (outer != L::Anon) && md.non_repudiation == (outer == L::Sign) && md.anonymous_sender == (outer == L::Anon), 42);
                sym::reach(1);
            } else {
                sym::check(valid(&ls), 43);
                sym::check(md.re_wrapped_in_forward && md.encrypted, 44);
                sym::check(m.body == Value::from(1), 45);
                let has = |x: L| ls.contains(&x);
                sym::check(md.authenticated == (has(L::Auth) || has(L::Sign)) && md.non_repudiation == has(L::Sign) && md.encrypted_from_kid.is_some() == has(L::Auth) && md.sign_from.is_some() == has(L::Sign), 46);
                sym::check(md.enc_alg_auth.is_some() == has(L::Auth) && md.sign_alg.is_some() == has(L::Sign) && match (&md.signed_message, &jws) { (None, None) => true, (Some(a), Some(b)) => a == b || (ls[0] == L::Sign && Jws::read(a) == Jws::read(b)), _ => false }, 47);
                if has(L::Anon) { sym::check(md.anonymous_sender && md.enc_alg_anon == Some(anon_of(w.c)), 48); }
                sym::reach(2);
            }
        }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(through && !valid(&ls), 49); sym::reach(3); }
    }
}

/// the signed envelope is reported character by character as it was received: with white space around and inside it, its members in another order, members nobody defined
pub fn exact() {
    let ls: Vec<L> = match sym::choice(4) { 0 => vec![], 1 => vec![L::Anon], 2 => vec![L::Auth], _ => vec![L::Anon, L::Auth] };
    let w = world(1, ce(sym::choice(3)), Kt::X, Kt::Ed);
    let ws = ["", " ", "\n\t", "\r\n "];
    let j = Jws::new(Kt::Ed, 2, "did:x:a#s", plain("1").as_bytes());
    let (a, z) = (ws[sym::choice(4) as usize], ws[sym::choice(4) as usize]);
    let i = ws[sym::choice(2) as usize];
    let mut ms = vec![["\"payload\":", i, "\"", j.payload.as_str(), "\""].concat(), ["\"signatures\":[", i, "{\"protected\":\"", j.sigs[0].1.as_str(), "\",", i, "\"signature\":\"", j.sigs[0].2.as_str(), "\",\"header\":{\"kid\":\"did:x:a#s\"}}", i, "]"].concat()];
    if sym::flip() { ms.reverse(); }
    if sym::flip() { ms.push(["\"zz\":\"", sym::ident(1).as_str(), "\""].concat()); }
    let t = [a, "{", i, ms.join(",").as_str(), i, "}", z].concat();
    let (p, _) = build(&w, &ls, &t);
    let p = if !ls.is_empty() { [a, p.as_str(), z].concat() } else { p };
    match run(Message::unpack(&p, &w.d, &w.s, &UnpackOptions::default())) {
        Ok((m, md)) => { let mut all = ls.clone(); all.push(L::Sign); sym::check(expect(&w, &all, &md, &Some(t)), 50); sym::check(m.body == Value::from(1), 51); sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(52); }
    }
}
