#!/usr/bin/env python3
"""Regenerates harness/src/lib.rs: one feature-gated module per property, one exported entry per `pub fn` without arguments."""
import re, glob, os
d = os.path.dirname(os.path.abspath(__file__)) + '/../harness/src/'
o = '#![allow(clippy::all)]\n#![allow(unused)]\npub mod fix;\npub mod craft;\npub mod gen;\npub mod sym;\n'
tab = ''
for f in sorted(glob.glob(d + 'c[0-9][0-9].rs')):
    m = os.path.basename(f)[:-3]
    es = re.findall(r'^pub fn (\w+)\(\) \{', open(f).read(), re.M)
    o += '#[cfg(feature = "%s")] pub mod %s;\n#[cfg(feature = "%s")] pub mod %s_entries {\n' % (m, m, m, m)
    for e in es:
        o += '    #[no_mangle] pub extern "C" fn h_%s_%s() { askar_crypto::model::reset(); crate::%s::%s() }\n' % (m, e, m, e)
        tab += '    #[cfg(feature = "%s")] ("h_%s_%s", %s_entries::h_%s_%s),\n' % (m, m, e, m, m, e)
    o += '}\n'
o += 'pub const TABLE: &[(&str, extern "C" fn())] = &[\n' + tab + '];\n'
open(d + 'lib.rs', 'w').write(o)
