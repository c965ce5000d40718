use crate::{craft::*, fix::*, sym};
use didcomm::did::*;
use didcomm::protocols::routing::try_parse_forward;
use didcomm::*;
use serde_json::{json, Value};

const V2: &str = "didcomm/v2";
/// kinds of service: 0 accept absent, 1 accept empty, 2 accept exactly didcomm/v2 up to one symbolic character, 3 other then symbolic profile, 4 only other profiles, 5 not a DIDComm service
fn accept(k: u32, c: &str) -> Option<Vec<String>> {
    let near = ["didcomm/v", c].concat();
    match k { 0 => None, 1 => Some(vec![]), 2 => Some(vec![near]), 3 => Some(vec!["didcomm/aip1".into(), near]), _ => Some(vec!["didcomm/v1".into(), "DIDComm/v2".into(), "didcomm/v2 ".into()]) }
}
fn service(id: &str, k: u32, c: &str, uri: &str, keys: &[&str]) -> Service {
    if k == 5 { return Service { id: id.into(), service_endpoint: ServiceKind::Other { value: json!({"uri": uri}) } }; }
    svc(id, uri, accept(k, c), keys)
}
fn ok(k: u32, c: &str) -> bool { match k { 0 | 1 => true, 2 | 3 => ["didcomm/v", c].concat() == V2, _ => false } }

struct S { id: String, k: u32, uri: u32, keys: bool }
const URIS: [&str; 9] = ["http://b", "did:x:m", "did:x:none", "did:x:empty", "did:x:deep", "did:x:second", "https://did:x:m", "did:x:b", ""];
/// what a mediator DID leads to: Ok(endpoint) or the error kind
fn via(u: u32, ss: &[S], c: &str) -> std::result::Result<Option<&'static str>, u64> { match u { 0 | 6 | 8 => Ok(None), 1 => Ok(Some("http://m")), 2 => Err(1), 3 => Err(6), 4 => Err(6), 5 => Ok(Some("http://2")),
    // the recipient names itself: its first acceptable service counts as the mediator's
    _ => match ss.iter().find(|s| ok(s.k, c)) { Some(s) => match s.uri { 0 | 6 | 8 => Ok(Some(URIS[s.uri as usize])), _ => Err(6) }, None => Err(6) } } }
fn docs() -> Vec<DIDDoc> {
    let ka = |w: Who| w.ka("1", Kt::X, 8);
    vec![
        ka(Who::new("did:x:m")).svc(svc("did:x:m#v", "http://m", None, &["did:x:q#1"])).doc(),
        ka(Who::new("did:x:empty")).svc(service("did:x:empty#o", 5, "", "http://o", &[])).svc(service("did:x:empty#1", 4, "", "http://o", &[])).doc(),
        ka(Who::new("did:x:deep")).svc(svc("did:x:deep#v", "did:x:m", None, &[])).doc(),
        ka(Who::new("did:x:second")).svc(service("did:x:second#o", 4, "", "http://1", &[])).svc(svc("did:x:second#v", "http://2", Some(vec![V2.into()]), &[])).svc(svc("did:x:second#w", "http://3", None, &[])).doc(),
        ka(Who::new("did:x:q")).doc(),
    ]
}
fn judge(ss: &[S], c: &str, want: Option<String>, forward: bool) {
    let mut b = Who::new("did:x:b").ka("1", Kt::X, 3);
    for s in ss { b = b.svc(service(&s.id, s.k, c, URIS[s.uri as usize], if s.keys { &["did:x:q#1"] } else { &[] })); }
    let mut ds = docs(); ds.push(b.doc());
    let d = Dids::new(ds); let sec = Secs::new(vec![]);
    let m = Message::build("i".into(), "t".into(), Value::Null).finalize();
    let o = PackEncryptedOptions { messaging_service: want.clone(), ..opts(forward) };
    let r = run(m.pack_encrypted("did:x:b", None, None, &d, &sec, &o));
    // what the documents say
    let sel: std::result::Result<Option<&S>, u64> = match &want {
        Some(w) => match ss.iter().find(|s| s.id == *w) { None => Err(9), Some(s) => if ok(s.k, c) { Ok(Some(s)) } else { Err(9) } },
        None => Ok(ss.iter().find(|s| ok(s.k, c))),
    };
    let exp: std::result::Result<Option<(&S, Vec<&str>, &str)>, u64> = if !forward { Ok(None) } else { match sel {
        Err(e) => Err(e), Ok(None) => Ok(None),
        Ok(Some(s)) => match via(s.uri, ss, c) {
            Err(e) => Err(e),
            Ok(v) => { let mut keys = vec![]; if v.is_some() { keys.push(URIS[s.uri as usize]); } if s.keys { keys.push("did:x:q#1"); } if keys.is_empty() { Ok(None) } else { Ok(Some((s, keys, v.unwrap_or(URIS[s.uri as usize])))) } }
        },
    } };
    match (r, exp) {
        (Ok((p, md)), Ok(None)) => { sym::check(md.messaging_service.is_none(), 1); sym::check(Jwe::read(&p).map(|j| j.kids() == vec!["did:x:b#1"]) == Some(true), 2); sym::reach(1); }
        (Ok((p, md)), Ok(Some((s, keys, ep)))) => {
            match &md.messaging_service { Some(x) => { sym::check(x.id == s.id, 3); sym::check(x.service_endpoint == ep, 4); } None => sym::fail(5) }
            let mut cur = p;
            for (i, k) in keys.iter().enumerate() {
                let kid = if k.contains('#') { k.to_string() } else { format_id(k, "1") };
                let f = Jwe::read(&cur).and_then(|j| open(&j, &kid, Kt::X, if *k == "did:x:b" { 3 } else { 8 }, None)).and_then(|b| serde_json::from_slice::<Message>(&b).ok());
                match f.as_ref().and_then(|m| try_parse_forward(m).map(|f| (f.next.clone(), f.forwarded_msg.to_string()))) {
                    Some((n, t)) => { sym::check(n == if i + 1 < keys.len() { keys[i + 1] } else { "did:x:b" }, 6); cur = t; }
                    None => { sym::fail(7); return; }
                }
            }
            sym::check(Jwe::read(&cur).map(|j| j.kids() == vec!["did:x:b#1"]) == Some(true), 8);
            sym::reach(2);
            if keys.len() > 1 { sym::reach(3); }
        }
        (Err(e), Err(k)) => { sym::obs(kcode(e.kind())); sym::check(kcode(e.kind()) == k, 9); sym::reach(10 + k as u32); }
        (Ok(_), Err(k)) => { sym::obs(k); sym::fail(10); }
        (Err(e), Ok(_)) => { sym::obs(kcode(e.kind())); sym::fail(11); }
    }
}
/// which of up to 2 (thorough 3) services of any kind is used, by order or by a symbolic id
pub fn order() {
    let n = sym::choice(sym::by_tier(3, 4));
    let c = sym::ident(1);
    let mut ss = vec![];
    for i in 0..n { ss.push(S { id: ["did:x:b#", ["p", "c", "z"][i as usize]].concat(), k: sym::choice(6), uri: if i == 0 { 0 } else { i - 1 }, keys: true }); }
    let want = match sym::choice(3) { 0 => None, 1 => Some(["did:x:b#", sym::ident(1).as_str()].concat()), _ => Some(sym::ident(1)) };
    judge(&ss, &c, want, true);
}
/// endpoints: URL, empty text, the recipient itself (a URL service of its own before it or not), mediator with one service, unresolvable DID, mediator without usable service, second-level DID, mediator whose second service is usable
pub fn endpoint() {
    let named = sym::flip();
    let k = sym::choice(3);
    let mut ss = vec![];
    if sym::flip() { ss.push(S { id: "did:x:b#o".into(), k: 5, uri: sym::choice(2), keys: true }); }
    ss.push(S { id: "did:x:b#v".into(), k, uri: sym::choice(9), keys: sym::flip() });
    if sym::flip() { ss.push(S { id: "did:x:b#v".into(), k: 0, uri: 0, keys: true }); }
    judge(&ss, "2", if named { Some("did:x:b#v".into()) } else { None }, true);
}
/// with forwarding off no service is looked at
pub fn off() {
    let ss = vec![S { id: "did:x:b#v".into(), k: sym::choice(6), uri: sym::choice(7), keys: sym::flip() }];
    judge(&ss, "2", if sym::flip() { Some(["did:x:b#", sym::ident(1).as_str()].concat()) } else { None }, false);
}
/// recipient addressed by key: the service still comes from the key's DID
pub fn by_key() {
    let b = Who::new("did:x:b").ka("1", Kt::X, 3).svc(svc("did:x:b#v", "http://b", None, &["did:x:q#1"]));
    let mut ds = docs(); ds.push(b.doc());
    let d = Dids::new(ds);
    let m = Message::build("i".into(), "t".into(), Value::Null).finalize();
    let to = ["did:x:b#", sym::ident(1).as_str()].concat();
    match run(m.pack_encrypted(&to, None, None, &d, &Secs::new(vec![]), &opts(true))) {
        Ok((p, md)) => {
            sym::check(to == "did:x:b#1", 20);
            sym::check(md.messaging_service.map(|s| s.id == "did:x:b#v" && s.service_endpoint == "http://b") == Some(true), 21);
            let f = Jwe::read(&p).and_then(|j| open(&j, "did:x:q#1", Kt::X, 8, None)).and_then(|b| serde_json::from_slice::<Message>(&b).ok());
            sym::check(f.as_ref().and_then(|m| try_parse_forward(m).map(|f| f.next == to)) == Some(true), 22);
            sym::reach(1);
        }
        Err(e) => { let k = kcode(e.kind()); sym::obs(k); sym::check(to != "did:x:b#1" && k == 2, 23); sym::reach(2); }
    }
}
