import sys; sys.path.insert(0, '/verif/tools')
from mkbug import mk
mk('apv-prefix', 'C06', [('src/jwe/parse.rs', 'if &self.apv != did_comm_apv.as_slice() {', 'if !did_comm_apv.as_slice().starts_with(&self.apv) {')],
 'an envelope made by someone who truncates the recipients digest (or leaves it empty) and is otherwise honest for its header',
 'apv that is only a prefix of the recipients digest is accepted, so the recipient list is no longer bound',
 '''fn main() {
    for n in [0usize, 1, 16, 31] {
        let mut e = Enc::new(Kt::X, Ce::Xc, &[("did:x:b#x", 11), ("did:x:b#y", 12)]);
        e.h_apv = Some(apv_of(&["did:x:b#x", "did:x:b#y"])[..n].to_vec());
        if unpack(&e.pack(plain("{}").as_bytes()), &dids(), &Secs::new(bob().secrets())).is_ok() { bad("an envelope with a truncated apv was accepted"); }
    }
    if unpack(&Enc::new(Kt::X, Ce::Xc, &[("did:x:b#x", 11), ("did:x:b#y", 12)]).pack(plain("{}").as_bytes()), &dids(), &Secs::new(bob().secrets())).is_err() { bad("an honest envelope was refused"); }
}
''')
mk('all-keys-first-wins', 'C24', [('src/message/unpack/authcrypt.rs', '            (KnownKeyPair::X25519(_), KnownKeyPair::P256(_), _) => Err(err_msg(', '            (KnownKeyPair::X25519(_), KnownKeyPair::P256(_), _) if payload.is_some() => continue,\n            (KnownKeyPair::X25519(_), KnownKeyPair::P256(_), _) => Err(err_msg(')],
 'expect_decrypt_by_all_keys, an authenticated envelope with at least two held recipient keys, of which a later one cannot open it because its type does not match the envelope',
 'decrypt-by-all-keys succeeds although one of the held keys did not open the envelope',
 '''fn main() {
    let mut s = bob().secrets();
    let m = Enc::new(Kt::X, Ce::Cbc, &[("did:x:b#x", 11), ("did:x:b#y", 12)]).from("did:x:a#x", 1).pack(plain("{}").as_bytes());
    let o = UnpackOptions { expect_decrypt_by_all_keys: true, unwrap_re_wrapping_forward: true };
    if run(Message::unpack(&m, &dids(), &Secs::new(s.clone()), &o)).is_err() { bad("all keys open it, yet it was refused"); }
    s[1] = secret("did:x:b#y", Kt::P, 12);
    if run(Message::unpack(&m, &dids(), &Secs::new(s), &o)).is_ok() { bad("a held key does not open the envelope, yet decrypt-by-all-keys succeeded"); }
}
''')
mk('accept-substring', 'C14', [('src/protocols/routing/mod.rs', '''                    Some(accept) => {
                        if accept.is_empty() || accept.contains(&DIDCOMM_V2_PROFILE.into()) {
                            Some((service.id.clone(), value.clone()))''', '''                    Some(accept) => {
                        if accept.is_empty()
                            || accept.iter().any(|p| p.starts_with(DIDCOMM_V2_PROFILE))
                        {
                            Some((service.id.clone(), value.clone()))''')],
 'no service id given and a service listed before the right one whose accept list has only a profile that extends the didcomm/v2 name (didcomm/v2.1)',
 'a service that does not accept didcomm/v2 is selected instead of the first one that does',
 '''fn main() {
    let med = Who::new("did:x:m").ka("x", Kt::X, 21);
    let b = bob().svc(svc("s1", "http://one", Some(vec!["didcomm/v2.1".into()]), &["did:x:m#x"])).svc(svc("s2", "http://two", Some(vec!["didcomm/v2".into()]), &["did:x:m#x"]));
    let d = Dids::new(vec![alice().doc(), b.doc(), med.doc()]);
    let m = Message::build("i".into(), "t".into(), json!({})).finalize();
    let (_, md) = match run(m.pack_encrypted("did:x:b", None, None, &d, &Secs::new(vec![]), &opts(true))) { Ok(x) => x, Err(_) => bad("packing failed") };
    if md.messaging_service.map(|s| s.id) != Some("s2".to_string()) { bad("the selected service does not accept didcomm/v2"); }
}
''')
mk('links-jws-dropped', 'C21', [('src/message/attachment.rs', '            AttachmentData::Links { ref mut value } => value.jws = Some(jws),', '            AttachmentData::Links { ref mut value } if value.links.len() > 2 => value.links.sort(),\n            AttachmentData::Links { ref mut value } => value.jws = Some(jws),')],
 'an attachment by three or more links that is given a jws',
 'the jws of an attachment with more than two links is lost and its links are put in another order',
 '''fn main() {
    for n in 0..5 {
        let a = Attachment::links((0..n).map(|i| format!("http://l/{}", 9 - i)).collect(), "h".into()).jws("sig".into()).finalize();
        let v: Value = serde_json::to_value(&a).unwrap();
        if v["data"]["jws"] != json!("sig") { bad("the jws of the attachment was lost"); }
    }
}
''')
mk('created-expires', 'C20', [('src/message/message.rs', '    pub fn expires_time(mut self, expires_time: u64) -> Self {\n        self.expires_time = Some(expires_time);', '    pub fn expires_time(mut self, expires_time: u64) -> Self {\n        self.expires_time = Some(expires_time.max(self.created_time.unwrap_or(0)));')],
 'a message built with an expiry before its creation time',
 'the builder changes the expiry it was given',
 '''fn main() {
    let m = Message::build("i".into(), "t".into(), json!({})).created_time(20).expires_time(10).finalize();
    if m.expires_time != Some(10) || m.created_time != Some(20) { bad("expires_time is not the value given"); }
}
''')
mk('sender-did-prefix', 'C09', [('src/message/pack_encrypted/mod.rs', 'if !to.contains', 'if !to.contains')] if 0 else [('src/utils/did.rs', "let parts: Vec<_> = did.split(':').collect();\n    return parts.len() >= 3 && parts.get(0).unwrap() == &\"did\";", "let parts: Vec<_> = did.splitn(4, ':').collect();\n    return parts.len() == 3 && parts.get(0).unwrap() == &\"did\";")],
 'a recipient, sender or signer whose DID has a method-specific id with a colon (did:web:host:path)',
 'DIDs with more than three colon-separated parts are refused as illegal arguments',
 '''fn main() {
    let c = Who::new("did:web:h:u").ka("x", Kt::X, 31);
    let d = Dids::new(vec![c.doc()]);
    let m = Message::build("i".into(), "t".into(), json!({})).finalize();
    if run(m.pack_encrypted("did:web:h:u", None, None, &d, &Secs::new(vec![]), &opts(false))).is_err() { bad("a DID with a path was refused"); }
}
''')
