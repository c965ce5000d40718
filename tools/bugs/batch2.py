import sys; sys.path.insert(0, '/verif/tools')
from mkbug import mk
R = 'src/protocols/routing/mod.rs'
mk('third-recipient', 'C01', [('src/jwe/encrypt.rs', '''    let recipients: Vec<_> = encrypted_keys
        .iter()
        .map(|(kid, encrypted_key)| Recipient {
            header: PerRecipientHeader { kid },
            encrypted_key: &encrypted_key,
        })''', '''    let recipients: Vec<_> = encrypted_keys
        .iter()
        .enumerate()
        .map(|(i, (kid, encrypted_key))| Recipient {
            header: PerRecipientHeader { kid },
            encrypted_key: if i < 2 {
                encrypted_key
            } else {
                &encrypted_keys[i % 2].1
            },
        })''')],
 'a recipient DID with three or more keys of the chosen curve of which the opener holds only the third',
 'the third recipient key of an envelope cannot open it',
 '''fn main() {
    let c = Who::new("did:x:c").ka("x", Kt::X, 41).ka("y", Kt::X, 42).ka("z", Kt::X, 43);
    let d = Dids::new(vec![alice().doc(), c.doc()]);
    let m = Message::build("i".into(), "t".into(), json!({"a": 1})).finalize();
    let (t, md) = run(m.pack_encrypted("did:x:c", None, None, &d, &Secs::new(vec![]), &opts(false))).unwrap_or_else(|_| bad("packing failed"));
    if md.to_kids.len() != 3 { bad("not encrypted to all keys"); }
    for s in c.secrets() { match unpack(&t, &d, &Secs::new(vec![s])) { Ok((x, _)) if x == m => (), _ => bad("a reported recipient key does not open the envelope") } }
}
''')
mk('ek-tail', 'C03', [('src/utils/crypto.rs', '        let mut buf = SecretBytes::from_slice(ciphertext);\n\n        self.decrypt_in_place', '        // a wrapped key is never longer than a 512-bit key and the integrity check\n        let len = ciphertext.len().min(72);\n        let mut buf = SecretBytes::from_slice(&ciphertext[..len]);\n\n        self.decrypt_in_place')],
 'an A256CBC-HS512 envelope to whose encrypted key entry bytes were appended',
 'an envelope whose encrypted key entry was extended is still accepted',
 '''fn main() {
    for c in [Ce::Cbc, Ce::Xc] {
        let e = Enc::new(Kt::X, c, &[("did:x:b#x", 11)]);
        let mut j = e.parts(plain("{}").as_bytes());
        if unpack(&j.json(), &dids(), &Secs::new(bob().secrets())).is_err() { bad("an honest envelope was refused"); }
        let mut k = unb64(&j.recipients[0].1); k.extend_from_slice(&[0; 8]); j.recipients[0].1 = b64(&k);
        if unpack(&j.json(), &dids(), &Secs::new(bob().secrets())).is_ok() { bad("an envelope with an extended encrypted key was accepted"); }
    }
}
''')
mk('second-signature', 'C04', [('src/message/unpack/sign.rs', '    if parsed_jws.protected.len() != 1 {', '''    let several_signers = parsed_jws
        .jws
        .signatures
        .windows(2)
        .any(|s| s[0].header.kid != s[1].header.kid);

    if parsed_jws.protected.is_empty() || several_signers {''')],
 'a signed envelope with a second signature entry of the same key id',
 'an envelope with more than one signature is accepted when all of them name the same key, and only the first is verified',
 '''fn main() {
    let mut j = Jws::new(Kt::Ed, 3, "did:x:a#e", plain("{}").as_bytes());
    if unpack(&j.json(), &dids(), &Secs::new(vec![])).is_err() { bad("a signed message was refused"); }
    j.add(Kt::Ed, 3, "did:x:a#e");
    j.sigs[1].2 = b64(&[0; 64]);
    if unpack(&j.json(), &dids(), &Secs::new(vec![])).is_ok() { bad("a second, invalid signature was ignored"); }
}
''')
mk('skid-case', 'C05', [('src/jwe/parse.rs', '(Some(apu), Some(skid)) if apu != skid => {', '(Some(apu), Some(skid)) if !apu.eq_ignore_ascii_case(skid) => {')],
 'an authenticated envelope whose skid differs from the key id in apu only in the case of letters',
 'skid may differ from the key id in apu',
 '''fn main() {
    let mut e = Enc::new(Kt::X, Ce::Cbc, &[("did:x:b#x", 11)]).from("did:x:a#x", 1);
    if unpack(&e.pack(plain("{}").as_bytes()), &dids(), &Secs::new(bob().secrets())).is_err() { bad("an honest envelope was refused"); }
    e.h_skid = Some(Some("did:x:a#X".into()));
    if unpack(&e.pack(plain("{}").as_bytes()), &dids(), &Secs::new(bob().secrets())).is_ok() { bad("skid differs from apu"); }
}
''')
mk('to-url-match', 'C09', [('src/message/pack_encrypted/mod.rs', 'Some(ref sto) if !sto.contains(&to_did.into()) => {', 'Some(ref sto) if !sto.iter().any(|t| did_or_url(t).0 == to_did) => {')],
 'a message whose to header has only a key id of the recipient',
 'packing accepts a to header which does not contain the recipient DID',
 '''fn main() {
    for (t, ok) in [("did:x:b", true), ("did:x:b#x", false), ("did:x:c", false)] {
        let m = Message::build("i".into(), "t".into(), json!({})).to(t.into()).finalize();
        if run(m.pack_encrypted("did:x:b#x", None, None, &dids(), &Secs::new(vec![]), &opts(false))).is_ok() != ok { bad("the to header must contain the recipient DID"); }
    }
}
''')
mk('kid-outside-ka', 'C10', [('src/message/pack_encrypted/authcrypt.rs', '''    let to_kids: Vec<_> = to_ddoc
        .key_agreement
        .iter()
        .filter(|kid| to_kid.map(|to_kid| kid == &to_kid).unwrap_or(true))
        .map(|s| s.as_str())
        .collect();
''', '''    let to_kids: Vec<_> = match to_kid {
        Some(to_kid) => to_ddoc
            .verification_method
            .iter()
            .map(|vm| vm.id.as_str())
            .filter(|id| *id == to_kid)
            .collect(),
        None => to_ddoc.key_agreement.iter().map(|s| s.as_str()).collect(),
    };
''')],
 'authenticated packing to a key id whose verification method exists but is not in keyAgreement',
 'a message is encrypted to a key that the recipient does not list for key agreement',
 '''fn main() {
    let mut d = bob().doc();
    d.key_agreement.retain(|k| k != "did:x:b#y");
    let d = Dids::new(vec![alice().doc(), d]);
    let m = Message::build("i".into(), "t".into(), json!({})).finalize();
    for (k, ok) in [("did:x:b#x", true), ("did:x:b#y", false)] {
        if run(m.pack_encrypted(k, Some("did:x:a"), None, &d, &Secs::new(alice().secrets()), &opts(false))).is_ok() != ok { bad("encrypted to a key that is not in keyAgreement"); }
    }
}
''')
mk('signer-fallback', 'C11', [('src/message/pack_signed.rs', '''            vec![key_id]
        } else {''', '''            // the requested key goes first
            let mut kids = vec![key_id];
            kids.extend(did_doc.authentication.iter().map(|s| s.as_str()));
            kids
        } else {''')],
 'signing with a key id whose secret is not in the wallet while another authentication secret of that DID is',
 'another key than the requested one signs',
 '''fn main() {
    let m = Message::build("i".into(), "t".into(), json!({})).finalize();
    let s = alice().secrets();
    let q: Vec<Secret> = s.iter().filter(|s| s.id == "did:x:a#q").cloned().collect();
    if run(m.pack_signed("did:x:a#q", &dids(), &Secs::new(q.clone()))).is_err() { bad("signing failed"); }
    match run(m.pack_signed("did:x:a#e", &dids(), &Secs::new(q))) { Err(e) if e.kind() == ErrorKind::SecretNotFound => (), _ => bad("another key than the requested one was used") }
}
''')
mk('protect-key-id', 'C12', [('src/message/pack_encrypted/authcrypt.rs', '''    let msg = match key_alg {
        KnownKeyAlg::X25519 => {''', '''    // an explicit recipient key implies a peer that knows the sender already
    let protect_sender = protect_sender && (to_kid.is_none() || from_kid.is_none());

    let msg = match key_alg {
        KnownKeyAlg::X25519 => {''')],
 'protect_sender with both to and from given as key ids',
 'the sender is not protected although this was requested',
 '''fn main() {
    let m = Message::build("i".into(), "t".into(), json!({})).finalize();
    let mut o = opts(false); o.protect_sender = true;
    for (t, f) in [("did:x:b", "did:x:a"), ("did:x:b#x", "did:x:a"), ("did:x:b", "did:x:a#x"), ("did:x:b#x", "did:x:a#x")] {
        let (p, _) = run(m.pack_encrypted(t, Some(f), None, &dids(), &Secs::new(alice().secrets()), &o)).unwrap_or_else(|_| bad("packing failed"));
        let h = Jwe::read(&p).unwrap().header().unwrap();
        if h.get("skid").is_some() || h.get("apu").is_some() { bad("the protected sender is disclosed"); }
    }
}
''')
mk('routing-dedup', 'C13', [(R, '    let mut tos = routing_keys.clone();\n', '    let mut tos = routing_keys.clone();\n    tos.dedup();\n')],
 'a route in which the same routing key occurs twice in a row',
 'one layer of the forward onion is missing',
 '''fn main() {
    let med = Who::new("did:x:m").ka("x", Kt::X, 21);
    let d = Dids::new(vec![alice().doc(), bob().doc(), med.doc()]);
    let inner = r#"{"in":1}"#;
    let k = "did:x:m#x".to_string();
    let p = run(didcomm::protocols::routing::wrap_in_forward(inner, None, "did:x:b", &vec![k.clone(), k.clone()], &anon_alg(0), &d)).unwrap_or_else(|_| bad("wrapping failed"));
    let o = UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false };
    let s = Secs::new(med.secrets());
    let (m, _) = run(Message::unpack(&p, &d, &s, &o)).unwrap_or_else(|_| bad("the first hop cannot open it"));
    let f = didcomm::protocols::routing::try_parse_forward(&m).unwrap_or_else(|| bad("not a forward"));
    if f.next != k { bad("the first hop does not name the next routing key"); }
}
''')
mk('any-json-attachment', 'C15', [(R, '''            [attachment, ..] => match &attachment.data {
                AttachmentData::Json { ref value } => Some(value),
                _ => None,
            },
            _ => None,
        },''', '''            [_, ..] => attachments.iter().find_map(|a| match &a.data {
                AttachmentData::Json { ref value } => Some(value),
                _ => None,
            }),
            _ => None,
        },''')],
 'a forward-typed message whose first attachment is not JSON but a later one is',
 'a message is taken for a forward although its first attachment is not JSON',
 '''fn main() {
    let t = "https://didcomm.org/routing/2.0/forward";
    let j = Attachment::json(json!({"a": 1})).finalize();
    let b = Attachment::base64("YQ".into()).finalize();
    let m = |a: Vec<Attachment>| Message::build("i".into(), t.into(), json!({"next": "did:x:b"})).attachments(a).finalize();
    if didcomm::protocols::routing::try_parse_forward(&m(vec![j.clone(), b.clone()])).is_none() { bad("a forward was not recognised"); }
    if didcomm::protocols::routing::try_parse_forward(&m(vec![b, j])).is_some() { bad("not a forward"); }
}
''')
mk('prior-iss-prefix', 'C17', [('src/message/from_prior/unpack.rs', 'if from_prior.iss != did {', 'if !did.starts_with(&from_prior.iss) {')],
 'a rotation token signed by a DID that extends the DID it claims as iss',
 'a token signed by another DID than its iss is accepted',
 '''fn main() {
    let e = Who::new("did:x:ab").auth("e", Kt::Ed, 51);
    let a = Who::new("did:x:a").auth("e", Kt::Ed, 3);
    let d = Dids::new(vec![e.doc(), a.doc()]);
    let t = |k: &str, s: u8| jwt(Kt::Ed, s, &jwt_header("JWT", "EdDSA", k), br#"{"iss":"did:x:a","sub":"did:x:n"}"#);
    if run(FromPrior::unpack(&t("did:x:a#e", 3), &d)).is_err() { bad("a valid token was refused"); }
    if run(FromPrior::unpack(&t("did:x:ab#e", 51), &d)).is_ok() { bad("the token is not signed by its iss"); }
}
''')
mk('ed-secret-tail', 'C19', [('src/utils/did.rs', '''                        "Too short base58 secret material",
                    ))?
                }
                let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);''', '''                        "Too short base58 secret material",
                    ))?
                }
                let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                let x_value = &x_value[..x_value.len().min(curve25519_point_size)];''')],
 'an Ed25519 base58 secret that is longer than 64 bytes',
 'an overlong secret is accepted',
 '''fn main() {
    let m = Message::build("i".into(), "t".into(), json!({})).finalize();
    for (n, ok) in [(0, true), (1, false), (7, false)] {
        let mut v = sk(3).to_vec(); v.extend_from_slice(&pk(Kt::Ed, 3)); v.extend(vec![9u8; n]);
        let s = Secret { id: "did:x:a#e".into(), type_: SecretType::Ed25519VerificationKey2018, secret_material: SecretMaterial::Base58 { private_key_base58: bs58::encode(v).into_string() } };
        if run(m.pack_signed("did:x:a#e", &dids(), &Secs::new(vec![s]))).is_ok() != ok { bad("overlong secret"); }
    }
}
''')
mk('empty-accept', 'C22', [('src/did/did_doc.rs', '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub accept''', '''    #[serde(skip_serializing_if = "no_profiles")]
    pub accept'''), ('src/did/did_doc.rs', '''    pub routing_keys: Vec<String>,
}
''', '''    pub routing_keys: Vec<String>,
}

fn no_profiles(accept: &Option<Vec<String>>) -> bool {
    accept.as_ref().map_or(true, |a| a.is_empty())
}
''')],
 'a service with an empty accept list that is written and read back',
 'the empty accept list is lost',
 '''fn main() {
    for a in [None, Some(vec![]), Some(vec!["didcomm/v2".to_string()])] {
        let s: Service = serde_json::from_str(&serde_json::to_string(&svc("s", "u", a.clone(), &[])).unwrap()).unwrap();
        match s.service_endpoint { ServiceKind::DIDCommMessaging { value } if value.accept == a => (), _ => bad("the accept list was not kept") }
    }
}
''')
mk('rewrap-error-hidden', 'C23', [('src/message/unpack/mod.rs', 'if has_key_agreement_secret(&forward_msg.next, did_resolver, secrets_resolver).await? {', '''let ours = has_key_agreement_secret(&forward_msg.next, did_resolver, secrets_resolver)
                .await
                .unwrap_or(false);

            if ours {''')],
 'a resolver failure while an unwrapped forward is checked for its addressee',
 'a failed resolution is taken for "not addressed to us" and the forward is returned as success',
 '''fn main() {
    let f = r#"{"id":"i","typ":"application/didcomm-plain+json","type":"https://didcomm.org/routing/2.0/forward","body":{"next":"did:x:b"},"attachments":[{"data":{"json":{"x":1}}}]}"#;
    let e = Enc::new(Kt::X, Ce::Cbc, &[("did:x:b#x", 11)]).pack(f.as_bytes());
    let mut d = dids(); d.fail_at = 1;
    match unpack(&e, &d, &Secs::new(bob().secrets())) { Err(e) if e.kind() == ErrorKind::IoError => (), _ => bad("the resolver failure was hidden") }
}
''')
mk('anon-1pu', 'C25', [('src/message/unpack/anoncrypt.rs', 'if parsed_jwe.protected.alg != jwe::Algorithm::EcdhEsA256kw {', '''let key_agreement = parsed_jwe.protected.alg.as_str();

    if key_agreement.trim_end_matches("+A256KW") != "ECDH-ES" {''')],
 'an anonymous envelope whose alg header is another registered name of the same family (ECDH-ES)',
 'an envelope naming the algorithm ECDH-ES is opened as ECDH-ES+A256KW',
 '''fn main() {
    for (a, ok) in [("ECDH-ES+A256KW", true), ("ECDH-ES", false), ("ECDH-ES+A128KW", false)] {
        let mut e = Enc::new(Kt::X, Ce::Cbc, &[("did:x:b#x", 11)]);
        e.h_alg = Some(a.into()); e.kdf_alg = Some(a.into());
        if unpack(&e.pack(plain("{}").as_bytes()), &dids(), &Secs::new(bob().secrets())).is_ok() != ok { bad("an unknown algorithm was opened"); }
    }
}
''')
mk('zero-count', 'C21', [('src/message/attachment.rs', '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub byte_count: Option<u64>,
}

impl Attachment {''', '''    #[serde(skip_serializing_if = "is_unknown")]
    pub byte_count: Option<u64>,
}

fn is_unknown(byte_count: &Option<u64>) -> bool {
    byte_count.unwrap_or(0) == 0
}

impl Attachment {''')],
 'an attachment whose byte count is zero',
 'byte_count 0 is lost when the attachment is written',
 '''fn main() {
    for n in [None, Some(0), Some(5)] {
        let mut a = Attachment::base64("".into()).finalize(); a.byte_count = n;
        let b: Attachment = serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap();
        if a != b { bad("byte_count was lost"); }
    }
}
''')
mk('to-repeat', 'C20', [('src/message/message.rs', '''            let mut to = to;
            sto.append(&mut to);
            self''', '''            for to in to {
                if !sto.contains(&to) {
                    sto.push(to);
                }
            }
            self''')],
 'to_many with an entry that the message already has',
 'the builder drops a recipient it was given',
 '''fn main() {
    let m = Message::build("i".into(), "t".into(), json!({})).to("a".into()).to_many(vec!["b".into(), "a".into()]).finalize();
    if m.to != Some(vec!["a".into(), "b".into(), "a".into()]) { bad("to lost an entry"); }
}
''')
mk('codec-either', 'C18', [('src/utils/did.rs', 'if codec != Codec::Ed25519Pub {', 'if codec != Codec::Ed25519Pub && codec != Codec::Ed25519Priv {')],
 'an Ed25519 verification key whose multibase value has the codec of a private key',
 'a multibase value with the private key codec is read as a public key',
 '''fn main() {
    for (p, ok) in [(&[0xedu8, 1][..], true), (&[0x80, 0x26], false), (&[0xec, 1], false)] {
        let mut v = p.to_vec(); v.extend_from_slice(&pk(Kt::Ed, 3));
        let mut d = alice().doc();
        for m in d.verification_method.iter_mut() { if m.id == "did:x:a#e" { m.type_ = VerificationMethodType::Ed25519VerificationKey2020; m.verification_material = VerificationMaterial::Multibase { public_key_multibase: format!("z{}", bs58::encode(&v).into_string()) }; } }
        let j = Jws::new(Kt::Ed, 3, "did:x:a#e", plain("{}").as_bytes()).json();
        if unpack(&j, &Dids::new(vec![d]), &Secs::new(vec![])).is_ok() != ok { bad("wrong codec accepted"); }
    }
}
''')
mk('prior-issuer-prefix', 'C16', [('src/message/from_prior/pack.rs', '''            let (did, kid) = did_or_url(issuer_kid);

            if kid.is_none() {
                Err(err_msg(
                    ErrorKind::IllegalArgument,
                    "issuer_kid content is not DID URL",
                ))?;
            };

            if did != &self.iss {''', '''            let (did, kid) = did_or_url(issuer_kid);

            if kid.is_none() {
                Err(err_msg(
                    ErrorKind::IllegalArgument,
                    "issuer_kid content is not DID URL",
                ))?;
            };

            if !did.starts_with(&self.iss) {'''), ('src/message/from_prior/pack.rs', '''                    "issuer_kid content is not DID URL",
                )
            })?;

            if did != &self.iss {''', '''                    "issuer_kid content is not DID URL",
                )
            })?;

            if !did.starts_with(&self.iss) {''')],
 'an issuer key id under a DID that extends iss and that the document of iss lists for authentication',
 'a token is issued with a key id that does not belong to iss',
 '''fn main() {
    let mut d = Who::new("did:x:a").auth("e", Kt::Ed, 3).doc();
    d.authentication.push("did:x:ab#e".into());
    d.verification_method.push(vm("did:x:ab#e", Kt::Ed, 4));
    let d = Dids::new(vec![d]);
    let s = Secs::new(vec![secret("did:x:a#e", Kt::Ed, 3), secret("did:x:ab#e", Kt::Ed, 4)]);
    let f = FromPrior::build("did:x:a".into(), "did:x:n".into()).finalize();
    if run(f.pack(Some("did:x:a#e"), &d, &s)).is_err() { bad("packing failed"); }
    if run(f.pack(Some("did:x:ab#e"), &d, &s)).is_ok() { bad("a token was issued by another DID than iss"); }
}
''')
mk('short-apu-panic', 'C08', [('src/message/unpack/authcrypt.rs', '    let (from_did, from_url) = did_or_url(from_kid);\n\n    if from_url.is_none() {', '    let (from_did, from_url) = did_or_url(from_kid);\n\n    if from_url.is_none() || &from_kid[..4] != "did:" {')],
 'an authenticated envelope whose apu is a sender key id with a # and shorter than four bytes, or with a multi-byte character at the fourth byte',
 'unpacking panics',
 '''fn main() {
    for k in ["#", "a#", "d\\u{e9}d#", "di\\u{e9}#"] {
        let e = Enc::new(Kt::X, Ce::Cbc, &[("did:x:b#x", 11)]).from(k, 1).pack(plain("{}").as_bytes());
        if std::panic::catch_unwind(|| { let _ = unpack(&e, &dids(), &Secs::new(bob().secrets())); }).is_err() { bad("unpacking panicked"); }
    }
}
''')
mk('signed-in-forward', 'C07', [('src/message/unpack/sign.rs', '    metadata.signed_message = Some(jws_json.into());', '    metadata.signed_message = Some(jws_json.trim().into());')],
 'a signed envelope with white space around it',
 'the signed envelope in the metadata is not the exact envelope received',
 '''fn main() {
    let j = Jws::new(Kt::Ed, 3, "did:x:a#e", plain("{}").as_bytes()).json() + " ";
    let (_, m) = unpack(&j, &dids(), &Secs::new(vec![])).unwrap_or_else(|_| bad("a signed message was refused"));
    if m.signed_message != Some(j) { bad("not the exact signed envelope"); }
}
''')
