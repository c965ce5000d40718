#!/usr/bin/env python3
"""mutate.py list|run N [slots] [seed] [filter]: systematic small changes of /repo, run against the checks in copies under /tmp/mut;
writes /tmp/mut/results.jsonl (mutant, first check that caught it or none)"""
import re, sys, os, json, random, subprocess, shutil, threading, queue, time
MAP = [('src/jwe/encrypt', 'C01 C12 C10 C25'), ('src/jwe/decrypt', 'C01 C03 C05 C24 C25'), ('src/jwe/parse', 'C06 C05 C03 C08'), ('src/jwe/envelope', 'C25 C01 C08 C03'),
       ('src/jws/', 'C02 C04 C17 C25 C08 C16'), ('src/utils/crypto', 'C01 C18 C19 C05'), ('src/utils/did.rs', 'C18 C19 C09 C10 C08 C02'), ('src/message/unpack', 'C07 C24 C23 C06 C05 C15 C04 C08 C17'),
       ('src/message/pack_encrypted', 'C10 C11 C09 C01 C12 C23 C25 C28 C13'), ('src/message/pack_signed', 'C11 C02 C23 C09'), ('src/message/pack_plaintext', 'C17 C02 C23'),
       ('src/message/from_prior', 'C16 C17 C23'), ('src/message/message', 'C20 C02'), ('src/message/attachment', 'C21'), ('src/protocols/routing', 'C13 C14 C15 C29 C23 C12'),
       ('src/did/', 'C22 C32'), ('src/secrets/', 'C22 C32'), ('src/algorithms', 'C28 C25'), ('src/error', 'C08 C23 C26 C19 C31'), ('src/jwk', 'C01 C18 C19'), ('src/utils/serde', 'C28'),
       ('wasm/src', 'C30 C26'), ('uniffi/src', 'C31 C27 C32')]
RULES = [(r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|(?= )(?<!\(\|\|)', '&&'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\bif !', 'if '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.get\(0\)', '.last()'), (r'\.skip\(1\)', '.skip(0)'), (r'\[1\.\.\]', '[0..]'), (r'\bbreak;', '{}'), (r'\bcontinue;', 'break;'), (r'<(?= \w)', '<='), (r'> (?=\d)', '>= '),
         (r'ErrorKind::Malformed', 'ErrorKind::InvalidState'), (r'ErrorKind::(?:DIDNotResolved|DIDUrlNotFound|SecretNotFound|IllegalArgument|NoCompatibleCrypto|Unsupported|InvalidState|IoError)', 'ErrorKind::Malformed'),
         (r'\bSome\((\w[\w.]*)\)(?=[,;])', 'None'), (r'\.sort\(\);', '.len();'), (r'\.reverse\(\);', '.len();'), (r'^(\s*)(\w[\w.]*) = .*;$', r'\1'), (r'^(\s*)#\[serde\(.*\)\]$', r'\1'),
         (r'"([^"]{3,})"', None), (r'\b(\d+)\b', None), (r'\.find\(', '.rev().find('), (r'\.push\((.*)\);', r'.truncate(0);'), (r'\.iter\(\)\.rev\(\)', '.iter()'), (r'\bmatch_', 'match_')]
def sources():
    fs = subprocess.check_output(['git', '-C', '/tmp/mut/base', 'ls-files'], text=True).split()
    return [f for f in fs if f.endswith('.rs') and f.startswith(('src/', 'wasm/src/', 'uniffi/src/')) and 'test_vectors' not in f and 'mock' not in f and 'test_helper' not in f]
def mutants():
    out = []
    for f in sources():
        if not any(f.startswith(p) for p, _ in MAP):
            continue
        L = open('/tmp/mut/base/' + f).read().split('\n')
        for i, l in enumerate(L):
            if l.strip() in ('#[cfg(test)]',) or l.startswith('mod tests'):
                break
            s = l.strip()
            if s.startswith(('//', 'use ', '#![', 'pub use', 'mod ', 'pub mod', 'pub(crate) use')) or 'err_msg(' in s and 'if' not in s and 'ErrorKind' not in s:
                continue
            for pat, rep in RULES:
                for m in re.finditer(pat, l):
                    if rep is None and pat.startswith('"'):
                        if 'err' in l.lower() or 'Unable' in l or ' ' in m.group(1) or 'cfg' in l or 'derive' in l or 'feature' in l or 'rename_all' in l: continue
                        r = '"' + m.group(1)[:-1] + ('x' if m.group(1)[-1] != 'x' else 'y') + '"'
                    elif rep is None:
                        if '"' in l: continue
                        r = str(int(m.group(1)) + 1)
                    else:
                        r = m.expand(rep)
                    n = l[:m.start()] + r + l[m.end():]
                    if n != l:
                        out.append((f, i, l, n))
            # a statement removed
            if re.match(r'^\s*(self\.)?_?(verify|validate)\w*\(.*\)\?;$', l) or re.match(r'^\s*metadata\.\w+ = .*;$', l):
                out.append((f, i, l, ''))
        # whole error returns removed: `if cond {` whose next line starts with Err / return Err
        for i, l in enumerate(L[:-1]):
            if re.match(r'^\s*(\} else )?if .*\{$', l) and re.match(r'^\s*(return )?Err\(', L[i + 1]):
                out.append((f, i, l, re.sub(r'if (let )?.*\{$', 'if false {', l)))
    return list(dict.fromkeys(out))
def slot(n, q, lock):
    R, V = '/tmp/mut/%d/repo' % n, '/tmp/mut/%d/verif' % n
    os.makedirs('/tmp/mut/%d' % n, exist_ok=True)
    os.path.exists(R) or subprocess.run(['git', 'clone', '-q', '/tmp/mut/base', R], check=True)
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    if not os.path.exists(V):
        subprocess.run('mkdir -p %s && cd /verif && tar c --exclude=./seeded --exclude=./.git --exclude=./evidence --exclude=./build . | tar x -C %s' % (V, V), shell=True, check=True)
    subprocess.run('cd /verif && cp -r harness/src/* %s/harness/src/ && cp spec.py check.py known-findings.json %s/ && cp -r models standins %s/' % (V, V, V), shell=True)
    subprocess.run("grep -rlI '\"/repo' --include=*.toml --include=*.py --include=Cargo.lock %s | xargs sed -i 's#\"/repo#\"%s#g'; sed -i \"s#'/repo#'%s#g\" %s/check.py" % (V, R, R, V), shell=True)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        if len(m[0]) > 2 and m[0][0] == 'C':
            props, f, i = m[0].split(), m[1], -1
            p, text = R + '/' + f, open('/tmp/mut/base/' + m[1]).read()
            for a, b in zip(m[2::2], m[3::2]):
                if a not in text: print('no such text:', f, repr(a)); break
                text = text.replace(a, b, 1)
            else:
                a, b = m[2], m[3]
            open(p, 'w').write(text)
        else:
            f, i, a, b = m
            props = next(x for q_, x in MAP if f.startswith(q_)).split()
            p = R + '/' + f
            src = open('/tmp/mut/base/' + f).read().split('\n')
            assert src[i] == a
            src[i] = b
            open(p, 'w').write('\n'.join(src))
        res, tried, t0 = 'MISSED', [], time.time()
        for c in props:
            r = subprocess.run(['timeout', '300', 'python3', 'check.py', c, '--tier', 'quick'], cwd=V, capture_output=True, text=True)
            tried.append('%s:%d' % (c, r.returncode))
            if r.returncode == 1:
                res = 'caught'; break
            if r.returncode == 2 and ('error[E' in r.stdout + r.stderr or 'could not compile' in r.stdout + r.stderr):
                res = 'no-compile'; break
        shutil.copy('/tmp/mut/base/' + f, p)
        with lock:
            open('/tmp/mut/results.jsonl', 'a').write(json.dumps({'file': f, 'line': i + 1, 'old': a.strip(), 'new': b.strip(), 'result': res, 'tried': tried, 's': round(time.time() - t0), 'out': '' if res in ('caught', 'no-compile') else (r.stdout[-600:] if 'n' else '')}) + '\n')
if __name__ == '__main__':
    if sys.argv[1] == 'file':  # mutate.py file LIST.py slots: L = [(checks, file, old, new, [old2, new2])]
        ns = {}; exec(open(sys.argv[2]).read(), ns)
        q = queue.Queue(); lock = threading.Lock()
        done = {(r['file'], r['old'], r['new']) for r in map(json.loads, open('/tmp/mut/results.jsonl'))} if os.path.exists('/tmp/mut/results.jsonl') else set()
        for m in ns['L']:
            if (m[1], m[2].strip(), m[3].strip()) not in done: q.put(m)
        ts = [threading.Thread(target=slot, args=(k, q, lock)) for k in range(int(sys.argv[3]))]
        [t.start() for t in ts]; [t.join() for t in ts]; sys.exit()
    ms = mutants()
    if sys.argv[1] == 'list':
        for m in ms: print(m[0], m[1] + 1, m[2].strip(), '=>', m[3].strip())
        print(len(ms)); sys.exit()
    n = int(sys.argv[2]); slots = int(sys.argv[3]); seed = int(sys.argv[4]); flt = sys.argv[5] if len(sys.argv) > 5 else ''
    done = set()
    if os.path.exists('/tmp/mut/results.jsonl'):
        done = {(r['file'], r['line'], r['new']) for r in map(json.loads, open('/tmp/mut/results.jsonl'))}
    ms = [m for m in ms if re.search(flt, m[0]) and (m[0], m[1] + 1, m[3].strip()) not in done]
    random.Random(seed).shuffle(ms)
    q = queue.Queue(); lock = threading.Lock()
    for m in ms[:n]: q.put(m)
    ts = [threading.Thread(target=slot, args=(k, q, lock)) for k in range(slots)]
    [t.start() for t in ts]; [t.join() for t in ts]
