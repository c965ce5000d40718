"""mk(id, property, [(file, old, new)...], needs, breaks, main): writes seeded/<id>/{patch.diff,meta.json,main.rs} from an edit of a clone of /repo"""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = """#![allow(dead_code, unused_imports, unused_variables)]
mod craft;
mod fix;
use craft::*;
use fix::*;
use didcomm::algorithms::*;
use didcomm::did::*;
use didcomm::error::*;
use didcomm::secrets::*;
use didcomm::*;
use serde_json::{json, Value};
/// ends the demonstration: the property does not hold
fn bad(what: &str) -> ! { println!("property broken: {}", what); std::process::exit(1) }
fn unpack(m: &str, d: &Dids, s: &Secs) -> didcomm::error::Result<(Message, UnpackMetadata)> { run(Message::unpack(m, d, s, &UnpackOptions::default())) }
fn alice() -> Who { Who::new("did:x:a").ka("x", Kt::X, 1).ka("p", Kt::P, 2).auth("e", Kt::Ed, 3).auth("q", Kt::P, 4).auth("k", Kt::K, 5) }
fn bob() -> Who { Who::new("did:x:b").ka("x", Kt::X, 11).ka("y", Kt::X, 12).ka("p", Kt::P, 13).auth("e", Kt::Ed, 14) }
fn dids() -> Dids { Dids::new(vec![alice().doc(), bob().doc()]) }
"""
def mk(id, prop, edits, needs, breaks, main):
    if os.environ.get('ONLY') and id not in os.environ['ONLY'].split(','):
        return
    S = '%s/seeded/%s' % (V, id)
    os.makedirs(S, exist_ok=True)
    R = tempfile.mkdtemp(prefix='mkbug.')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', R + '/r'])
        for f, old, new in edits:
            s = open(R + '/r/' + f).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(R + '/r/' + f, 'w').write(s.replace(old, new))
        subprocess.call('rustfmt --edition 2018 --check ' + ' '.join(R + '/r/' + f for f, _, _ in edits) + ' 2>&1 | head -5', shell=True)
        d = subprocess.check_output(['git', '-C', R + '/r', 'diff'])
    finally:
        shutil.rmtree(R)
    open(S + '/patch.diff', 'wb').write(d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(S + '/meta.json', 'w'), indent=1)
    open(S + '/main.rs', 'w').write(PRE + main)
