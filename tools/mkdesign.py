#!/usr/bin/env python3
"""DESIGN.md from tools/design.tmpl.md and what the machinery itself knows"""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import spec
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
costs = json.load(open(V + '/tools/costs.json')) if os.path.exists(V + '/tools/costs.json') else {}
how = dict(l.rstrip('\n').split(' ', 1) for l in open(V + '/tools/how.txt'))
def docs(mod):
    out, doc = {}, []
    for l in open('%s/harness/src/%s.rs' % (V, mod)):
        m = re.match(r'pub fn (\w+)\(\)', l)
        if m:
            out[m.group(1)] = ' '.join(doc)
        doc = doc + [l[3:].strip()] if l.startswith('///') else []
    return out
S = []
for p in props:
    i = p['id']; P = spec.PROPS.get(i)
    S.append('### %s %s\n' % (i, p['title']))
    if not P:
        S.append('Not applicable: %s\n' % spec.NA.get(i)); continue
    S.append(how[i] + '\n')
    d = docs(i.lower())
    S.append('| entry | symbolic inputs and what is decided |\n|---|---|')
    for e in P['entries']:
        n = e['name'][6:] if re.match(r'h_c\d\d_', e['name']) else e['name']
        t = e.get('bounds') or ''
        x = d.get(n, '') or t
        x += ' (thorough only)' if e.get('thorough_only') else ''
        S.append('| `%s` | %s |' % (e['name'], x.replace('|', '\\|')))
    c = costs.get(i, {})
    if c:
        S.append('\nCost: ' + '; '.join('%s %d paths, %d M instructions, %d solver queries (%.0f s in the solver), %.0f s in all' % (t, x['paths'], x['insts'] // 1000000, x['queries'], x['solver'], x['wall']) for t, x in sorted(c.items())) + '.')
    if P.get('outside'):
        S.append('\nOutside: ' + P['outside'] + '.')
    if P.get('assume'):
        S.append('\nAssumed in addition: ' + '; '.join(P['assume']) + '.')
    S.append('')
kf = json.load(open(V + '/known-findings.json'))
F = ['Repaired (each a `fix:` commit in /repo; found by the check of the property, or by writing it):\n'] + ['- ' + re.sub(r'^fixed: property=(\S+) (\S+)', r'**\1** `\2`:', x) for x in kf['fixed']]
F += ['\nRecorded, not repaired (`known-findings.json`):\n'] + ['- **%s** `%s` id %s: %s' % (x['property'], x['entry'], x['id'], x['what']) + ('. ' + x['why'] if 'why' in x else '') for x in kf['known']]
res = json.load(open(V + '/seeded/results.json')) if os.path.exists(V + '/seeded/results.json') else {}
T = ['| change | property | what it breaks | needs | caught |\n|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f)); r = res.get(n, {})
    T.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], r.get('caught', 'not yet run') + (' (%s)' % r['note'] if r.get('note') else '')))
s = open(V + '/tools/design.tmpl.md').read()
for k, x in (('PROPS', S), ('FINDINGS', F), ('SEEDS', T)):
    s = s.replace('@@%s@@' % k, '\n'.join(x))
open(V + '/DESIGN.md', 'w').write(s)
