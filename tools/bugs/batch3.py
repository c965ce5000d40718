import sys; sys.path.insert(0, '/verif/tools')
from mkbug import mk
R = 'src/protocols/routing/mod.rs'
JS = '''use didcomm_js as js;
use js_sys::{Array, Error as JsErr, Promise};
use wasm_bindgen::{Host, JsCast, JsValue};
use std::rc::Rc;
struct H { throws: Option<JsValue> }
impl Host for H {
    fn call(&self, name: &str, args: Vec<JsValue>) -> std::result::Result<JsValue, JsValue> {
        if let Some(v) = &self.throws { return Err(v.clone()); }
        let a = args[0].as_string().unwrap_or_default();
        Ok(match name {
            "resolve" => dids().docs.iter().find(|d| d.id == a).map(|d| JsValue::from_serde(d).unwrap()).unwrap_or(JsValue::NULL),
            "get_secret" => alice().secrets().iter().chain(bob().secrets().iter()).find(|s| s.id == a).map(|s| JsValue::from_serde(s).unwrap()).unwrap_or(JsValue::NULL),
            _ => args[0].clone(),
        })
    }
}
fn host(throws: Option<JsValue>) -> JsValue { JsValue::Host(Rc::new(H { throws })) }
fn jmsg() -> js::Message { match js::Message::new(JsValue::Json(json!({"id": "i", "typ": "application/didcomm-plain+json", "type": "t", "body": {}})).into()) { Ok(m) => m, Err(_) => bad("no message") } }
fn name(p: Promise) -> Option<String> { match p.outcome() { Ok(_) => None, Err(v) => Some(v.dyn_ref::<JsErr>().and_then(|e| e.name().as_string()).unwrap_or_default()) } }
'''
FFI = '''use didcomm_uniffi as ffi;
use ffi::{DIDComm, ErrorCode, OnDIDResolverResult, OnFindSecretsResult, OnGetSecretResult};
use futures::executor::model;
use std::sync::{Arc, Mutex};
'''
mk('js-bare-name', 'C26', [('wasm/src/error.rs', 'match e.name().as_string().as_deref() {', 'match e\n                    .name()\n                    .as_string()\n                    .map(|n| format!("DIDComm{}", n.trim_start_matches("DIDComm")))\n                    .as_deref()\n                {')],
 'a resolver that throws an Error whose name is one of the documented names without the DIDComm prefix (Malformed, IoError)',
 'a thrown value with another name than the documented ones is not converted to InvalidState',
 JS + '''fn main() {
    for (n, w) in [("DIDCommIoError", "DIDCommIoError"), ("IoError", "DIDCommInvalidState"), ("Unsupported", "DIDCommInvalidState"), ("TypeError", "DIDCommInvalidState")] {
        let e = JsErr::new("boom"); e.set_name(n);
        let h = host(Some(e.into()));
        if name(jmsg().pack_signed("did:x:a".into(), js::DIDResolver::from(h.clone()), js::SecretsResolver::from(h))).as_deref() != Some(w) { bad("wrong error kind"); }
    }
}
''')
mk('late-error-ok', 'C27', [('uniffi/src/common.rs', '''                .send(Err(err_msg(err, msg)))
                .to_error_kind(ErrorKind::InvalidState)?,
            None => Err(ErrorKind::InvalidState)?,''', '''                .send(Err(err_msg(err, msg)))
                .to_error_kind(ErrorKind::InvalidState)?,
            None => (),''')],
 'an error handed to a callback that already has its result',
 'a late error is not refused',
 FFI + '''struct F(Arc<Mutex<Vec<Arc<OnDIDResolverResult>>>>);
impl ffi::DIDResolver for F { fn resolve(&self, did: String, cb: Arc<OnDIDResolverResult>) -> ErrorCode { self.0.lock().unwrap().push(cb); ErrorCode::Success } }
impl ffi::SecretsResolver for F { fn get_secret(&self, _: String, _: Arc<OnGetSecretResult>) -> ErrorCode { ErrorCode::Error } fn find_secrets(&self, _: Vec<String>, _: Arc<OnFindSecretsResult>) -> ErrorCode { ErrorCode::Error } }
struct O;
impl ffi::OnPackSignedResult for O { fn success(&self, _: String, _: PackSignedMetadata) {} fn error(&self, _: ErrorKind, _: String) {} }
fn main() {
    for first in [true, false] {
        model::reset();
        let q = Arc::new(Mutex::new(vec![]));
        let c = DIDComm::new(Box::new(F(q.clone())), Box::new(F(q.clone())));
        c.pack_signed(&Message::build("i".into(), "t".into(), json!({})).finalize(), "did:x:a".into(), Box::new(O));
        model::settle();
        let cb = q.lock().unwrap()[0].clone();
        let r = if first { cb.success(None) } else { cb.error(ErrorKind::IoError, "e".into()) };
        if r.is_err() { bad("the first delivery was refused"); }
        if cb.success(None).is_ok() { bad("a late result was accepted"); }
        if cb.error(ErrorKind::IoError, "e".into()).is_ok() { bad("a late error was accepted"); }
    }
}
''')
mk('js-empty-from', 'C30', [('wasm/src/message/pack_encrypted.rs', '                    from.as_deref(),\n', '                    from.as_deref().filter(|from| !from.trim().is_empty()),\n')],
 'pack_encrypted called with an empty string as from',
 'an empty sender is not refused as an illegal argument, the message is packed anonymously',
 JS + '''fn main() {
    let h = host(None);
    let p = |f: Option<&str>| name(jmsg().pack_encrypted("did:x:b".into(), f.map(|f| f.into()), None, js::DIDResolver::from(h.clone()), js::SecretsResolver::from(h.clone()), JsValue::Json(json!({}))));
    if p(None).is_some() || p(Some("did:x:a")).is_some() { bad("packing failed"); }
    for f in ["", " "] { if p(Some(f)).as_deref() != Some("DIDCommIllegalArgument") { bad("an empty sender was accepted"); } }
}
''')
mk('ffi-early-success', 'C31', [('uniffi/src/didcomm/protocols/routing/mod.rs', '''        let did_resolver = DIDResolverAdapter::new(self.did_resolver.clone());
''', '''        if routing_keys.is_empty() {
            cb.success(msg);
            return ErrorCode::Success;
        }

        let did_resolver = DIDResolverAdapter::new(self.did_resolver.clone());
''')],
 'wrap_in_forward with no routing keys',
 'the callback is called before the operation returns',
 FFI + '''struct O(Arc<Mutex<u32>>);
impl ffi::OnWrapInForwardResult for O { fn success(&self, _: String) { *self.0.lock().unwrap() += 1; } fn error(&self, _: ErrorKind, _: String) { *self.0.lock().unwrap() += 1; } }
fn main() {
    for k in [vec![], vec!["did:x:b".to_string()]] {
        model::reset();
        let n = Arc::new(Mutex::new(0));
        let c = DIDComm::new(Box::new(ffi::ExampleDIDResolver::new(dids().docs)), Box::new(ffi::ExampleSecretsResolver::new(vec![])));
        c.wrap_in_forward("{}".into(), &Default::default(), "did:x:b".into(), &k, &anon_alg(0), Box::new(O(n.clone())));
        if *n.lock().unwrap() != 0 { bad("called back before returning"); }
        model::settle();
        if *n.lock().unwrap() != 1 { bad("not called back once"); }
    }
}
''')
mk('wallet-order', 'C32', [('src/secrets/resolvers/example.rs', '''        Ok(secret_ids
            .iter()
            .filter(|&&sid| self.known_secrets.iter().find(|s| s.id == sid).is_some())
            .map(|sid| *sid)
            .collect())''', '''        Ok(self
            .known_secrets
            .iter()
            .filter_map(|s| secret_ids.iter().find(|&&sid| sid == s.id))
            .map(|sid| *sid)
            .collect())''')],
 'several asked ids which the wallet holds in another order',
 'the found secrets are not in the order they were asked for',
 '''fn main() {
    use didcomm::secrets::resolvers::ExampleSecretsResolver;
    let r = ExampleSecretsResolver::new(vec![secret("a", Kt::X, 1), secret("b", Kt::X, 2)]);
    for l in [["a", "b"], ["b", "a"]] { if run(r.find_secrets(&l)).unwrap_or_default() != l { bad("not in the order asked"); } }
}
''')
mk('alg-alias', 'C28', [('src/algorithms.rs', '''    Xc20pEcdhEsA256kw,

''', '''    #[serde(alias = "XC20PEcdhEsA256kw")]
    Xc20pEcdhEsA256kw,

''')],
 'options JSON naming the algorithm with the capitalisation of its JOSE name',
 'an algorithm name that is not one of the documented ones is accepted',
 '''fn main() {
    for (n, ok) in [("Xc20pEcdhEsA256kw", true), ("XC20PEcdhEsA256kw", false), ("xc20pEcdhEsA256kw", false)] {
        if serde_json::from_value::<PackEncryptedOptions>(json!({ "enc_alg_anon": n })).is_ok() != ok { bad("unknown algorithm name accepted"); }
    }
}
''')
mk('text-as-json', 'C29', [(R, '''        serde_json::from_str(forwarded_msg)
            .kind(ErrorKind::Malformed, "Unable deserialize forwarded message")?,''', '''        match serde_json::from_str(forwarded_msg) {
            Ok(forwarded_msg) => forwarded_msg,
            Err(e) if e.is_eof() => json!(forwarded_msg),
            Err(e) => Err(e).kind(ErrorKind::Malformed, "Unable deserialize forwarded message")?,
        },''')],
 'wrapping a message text that is cut short',
 'a message which is not JSON is wrapped instead of being refused',
 '''fn main() {
    let k = vec!["did:x:b".to_string()];
    for (t, ok) in [("{}", true), ("{", false), ("", false), ("x", false)] {
        if run(didcomm::protocols::routing::wrap_in_forward(t, None, "did:x:b", &k, &anon_alg(0), &dids())).is_ok() != ok { bad("a text that is not JSON was wrapped"); }
    }
}
''')
mk('empty-to', 'C02', [('src/message/message.rs', '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub to: Option<Vec<String>>,''', '''    #[serde(skip_serializing_if = "is_broadcast")]
    pub to: Option<Vec<String>>,'''), ('src/message/message.rs', '''fn default_typ() -> String {''', '''fn is_broadcast(to: &Option<Vec<String>>) -> bool {
    to.iter().flatten().next().is_none()
}

fn default_typ() -> String {''')],
 'a message with an empty list of recipients',
 'the to header of a signed or plaintext message is lost',
 '''fn main() {
    for t in [None, Some(vec![]), Some(vec!["did:x:b".to_string()])] {
        let mut m = Message::build("i".into(), "t".into(), json!({})).finalize(); m.to = t;
        let (p, _) = run(m.pack_signed("did:x:a", &dids(), &Secs::new(alice().secrets()))).unwrap_or_else(|_| bad("packing failed"));
        match unpack(&p, &dids(), &Secs::new(vec![])) { Ok((x, _)) if x == m => (), _ => bad("the message is not equal") }
    }
}
''')
mk('chain-service-id', 'C14', [(R, '        id: services_chain.last().unwrap().0.clone(),', '        id: services_chain.first().unwrap().0.clone(),')],
 'a recipient service whose endpoint is the DID of a mediator',
 'the reported service id is that of the mediator',
 '''fn main() {
    let med = Who::new("did:x:m").ka("x", Kt::X, 21).svc(svc("did:x:m#s", "http://m", None, &[]));
    let b = bob().svc(svc("did:x:b#s", "did:x:m", None, &[]));
    let d = Dids::new(vec![b.doc(), med.doc()]);
    let m = Message::build("i".into(), "t".into(), json!({})).finalize();
    let (_, md) = run(m.pack_encrypted("did:x:b", None, None, &d, &Secs::new(vec![]), &opts(true))).unwrap_or_else(|_| bad("packing failed"));
    let s = md.messaging_service.unwrap_or_else(|| bad("no service"));
    if s.id != "did:x:b#s" || s.service_endpoint != "http://m" { bad("wrong service reported"); }
}
''')
