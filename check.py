#!/usr/bin/env python3
"""Solver-based checks of didcomm-rust: builds the harness and /repo's current tree to one LLVM module,
executes the harness entries of a property symbolically (symir, z3), replays every counterexample on the
real code natively and reports it.

  check.py build                      build everything (setup)
  check.py <property> [--tier quick|thorough] [--entry NAME]... [--keep]
"""
import os, sys, json, subprocess, hashlib, shutil, glob, re, time, fcntl, concurrent.futures as cf
from collections import Counter

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, 'build')
TC = 'stable-x86_64-unknown-linux-gnu'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS'):
    ENV.pop(k, None)
sys.path.insert(0, V)
import spec


class Err(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        out = p.stdout.decode('utf8', 'replace')
        raise Err('command failed: %s\n%s' % (' '.join(cmd)[:300], out[-6000:]))
    return p.stdout.decode('utf8', 'replace')


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(f for f in glob.glob(p + '/**/*', recursive=True) if os.path.isfile(f))
        for f in fs:
            if '/target/' in f or '/.git/' in f:
                continue
            h.update(f.encode()); h.update(b'\0')
            h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()


def stamp_ok(name, val, files):
    try:
        return open(os.path.join(B, name)).read() == val and all(os.path.exists(f) for f in files)
    except OSError:
        return False


def set_stamp(name, val):
    open(os.path.join(B, name), 'w').write(val)


def build_symir():
    src = os.path.join(V, 'symir')
    h = tree_hash([src + '/src', src + '/Cargo.toml', src + '/Cargo.lock'])
    exe = os.path.join(B, 'symir')
    if stamp_ok('symir.stamp', h, [exe]):
        return exe
    sh(['cargo', 'build', '--release', '--offline', '--target-dir', os.path.join(B, 'tsymir')], cwd=src)
    shutil.copy2(os.path.join(B, 'tsymir/release/symir'), exe)
    set_stamp('symir.stamp', h)
    return exe


def repo_hash():
    return tree_hash([REPO + '/src', REPO + '/Cargo.toml', REPO + '/uniffi/src', REPO + '/wasm/src', V + '/harness/src', V + '/harness/Cargo.toml', V + '/harness/Cargo.lock', V + '/models', V + '/standins', V + '/harness/.cargo/config.toml'])


def drop_fp(t, profile):
    for n in ('didcomm-', 'harness-', 'askar-crypto-'):
        for f in glob.glob('%s/%s/.fingerprint/%s*' % (t, profile, n)):
            shutil.rmtree(f, ignore_errors=True)


def tool(n):
    sysroot = sh(['rustc', '--print', 'sysroot']).strip()
    return sysroot + '/lib/rustlib/x86_64-unknown-linux-gnu/bin/' + n


def rlib_modules(rlib, outdir, elf):
    """the bitcode modules in one rlib: its objects (linker-plugin-lto) or their .llvmbc section (std)"""
    d = os.path.join(outdir, os.path.basename(rlib))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh([tool('llvm-ar'), 'x', rlib], cwd=d)
    out = []
    for f in sorted(glob.glob(d + '/*.o')):
        if open(f, 'rb').read(4) == b'\x7fELF':
            sh([tool('llvm-objcopy'), '--dump-section', '.llvmbc=' + f + '.bc', f, '/dev/null'])
            f += '.bc'
        out.append(f)
    return out


def std_modules():
    sysroot = sh(['rustc', '--print', 'sysroot']).strip()
    d = os.path.join(B, 'std')
    os.makedirs(d, exist_ok=True)
    out = []
    skip = ('compiler_builtins', 'proc_macro', 'test', 'getopts', 'profiler_builtins', 'panic_abort', 'panic_unwind')
    for f in sorted(glob.glob(sysroot + '/lib/rustlib/x86_64-unknown-linux-gnu/lib/*.rlib')):
        n = os.path.basename(f)[3:].split('-')[0]
        if n not in skip:
            out += rlib_modules(f, d, True)
    return out


def feats(prop):
    return spec.PROPS[prop].get('mods', [prop.lower()])


def build_ir(prop):
    ents = sorted(e['name'] for e in spec.PROPS[prop]['entries'])
    fs = ','.join(feats(prop))
    ll = os.path.join(B, 'code.%s.ll' % prop)
    h = repo_hash() + fs + ','.join(ents)
    if stamp_ok('ir.%s.stamp' % prop, h, [ll]):
        return ll, 0.0
    t0 = time.time()
    t = os.path.join(B, 'tir')
    p = t + '/x86_64-unknown-linux-gnu'
    drop_fp(p, 'symir')
    for n in ('didcomm', 'didcomm_js', 'didcomm_uniffi', 'harness', 'askar_crypto'):
        for f in glob.glob(p + '/symir/deps/lib%s-*' % n):
            os.unlink(f)
    env = dict(ENV, RUSTFLAGS='-Clinker-plugin-lto')
    with cf.ThreadPoolExecutor(1) as ex:
        fstd = ex.submit(std_modules)
        sh(['cargo', 'build', '--offline', '--locked', '--profile', 'symir', '--lib', '--features', fs, '--target', 'x86_64-unknown-linux-gnu', '--target-dir', t], cwd=V + '/harness', env=env)
        std = fstd.result()
    mods = []
    for f in sorted(glob.glob(p + '/symir/deps/*.rlib')):
        mods += rlib_modules(f, os.path.join(B, 'mods'), False)
    bc = os.path.join(B, 'all.bc')
    sh([tool('llvm-link')] + mods + std + ['-o', bc])
    sh([tool('opt'), '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(ents), '--strip-debug', bc, '-S', '-o', ll])
    os.unlink(bc)
    set_stamp('ir.%s.stamp' % prop, h)
    return ll, time.time() - t0


def build_native(prop, profile):
    fs = ','.join(['native'] + feats(prop))
    exe = os.path.join(B, 'replay-%s-%s' % (prop, profile))
    h = repo_hash() + fs
    if stamp_ok('native-%s-%s.stamp' % (prop, profile), h, [exe]):
        return exe
    t = os.path.join(B, 'tnat')
    d = {'dev': 'debug', 'release': 'release'}[profile]
    drop_fp(t, d)
    sh(['cargo', 'build', '--offline', '--locked', '--profile', profile, '--bin', 'replay', '--features', fs, '--target-dir', t], cwd=V + '/harness')
    shutil.copy2('%s/%s/replay' % (t, d), exe)
    set_stamp('native-%s-%s.stamp' % (prop, profile), h)
    return exe


def replay(exe, entry, hexs, tier, timeout=60):
    env = dict(os.environ, SYM_TIER=str(tier), RUST_BACKTRACE='0')
    try:
        p = subprocess.run([exe, entry, hexs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return {'kind': 'timeout', 'code': 0, 'msg': '', 'obs': [], 'reach': [], 'known': []}
    for l in p.stdout.decode('utf8', 'replace').splitlines():
        if l.startswith('REPLAY '):
            return json.loads(l[7:])
    return {'kind': 'crash', 'code': p.returncode, 'msg': p.stderr.decode('utf8', 'replace')[-300:], 'obs': [], 'reach': [], 'known': []}


def demangle(ns):
    try:
        o = subprocess.run(['c++filt'], input='\n'.join(ns).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')
        return [re.sub(r'::h[0-9a-f]{16}$|\[[0-9a-f]{12,16}\]', '', x) for x in o[:len(ns)]]
    except OSError:
        return list(ns)


def run_entry(symir, ll, e, tier, jobs):
    tn = 1 if tier == 'thorough' else 0
    out = os.path.join(B, 'out', e['name'] + '.' + tier)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tl = e.get('time_t', 1500) if tn else e.get('time', 400)
    cmd = [symir, ll, e['name'], '--jobs', str(jobs), '--out', out, '--time', str(tl), '--tier', str(tn), '--samples', str(24 if tn else 10), '--max-viol', str(e.get('max_viol', 8)), '--max-steps', '400000000']
    if not e.get('no_audit'):
        cmd.append('--audit')
    if tn:
        cmd += ['--dump', '40']
    t0 = time.time()
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        po = pr.communicate(timeout=tl + 60)[0]
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, 9)
        po = pr.communicate()[0] + b' (killed: over its time)'
    r = {'entry': e['name'], 'wall': time.time() - t0, 'ends': Counter(), 'reach': Counter(), 'known': Counter(), 'cases': [], 'tot': Counter(), 'incomplete': False, 'errors': []}
    if pr.returncode != 0 or not os.path.exists(out + '/done.json') or glob.glob(out + '/crash.*'):
        r['errors'].append('%s: engine process failed: rc=%d %s' % (e['name'], pr.returncode, po.decode('utf8', 'replace')[-800:]))
        return r
    done = json.load(open(out + '/done.json'))
    r['z3'] = done['z3']; r['stop'] = done['stop']
    names = json.load(open(out + '/names.json'))
    fs = set()
    for f in glob.glob(out + '/part.*.json'):
        j = json.load(open(f))
        for k, v in j.items():
            if isinstance(v, bool):
                r['incomplete'] |= v
            elif isinstance(v, (int, float)):
                if k.startswith('max') or k == 'nodes':
                    r['tot'][k] = max(r['tot'][k], v)
                else:
                    r['tot'][k] += v
        r['ends'].update(j['ends'])
        r['reach'].update({int(k): v for k, v in j['reach'].items()})
        r['known'].update({int(k): v for k, v in j['known'].items()})
        r['cases'] += j['cases']
        fs |= set(j['funcs'])
    r['funcs'] = sorted(set(demangle([names[i] for i in fs])))
    r['out'] = out
    bad = [k for k in r['ends'] if k.startswith('engine') or k == 'limit']
    if bad:
        r['errors'].append('%s: engine could not decide: %s' % (e['name'], {k: r['ends'][k] for k in bad}))
        for c in r['cases']:
            if c['kind'] in ('engine', 'limit'):
                r['errors'].append('  %s %s' % (c['msg'][:300], [x[:90] for x in demangle(c['bt'][:6])])); break
    if r['tot']['unknown']:
        r['errors'].append('%s: solver gave up on %d queries' % (e['name'], r['tot']['unknown']))
    hasviol = any(r['ends'].get(k) for k in ('fail', 'panic', 'mem'))
    if r['incomplete'] and not hasviol:
        r['errors'].append('%s: exploration did not finish (stop=%s after %.0fs, %d paths)' % (e['name'], done['stop'], r['wall'], r['tot']['paths']))
    if not hasviol and not bad:
        for m in e['reach']:
            if not r['reach'].get(m):
                r['errors'].append('%s: reach marker %d was never hit: the check would be vacuous' % (e['name'], m))
    return r


def harness_text(prop, entry):
    """the doc comment of a harness entry, and its source lines"""
    ls = open('%s/harness/src/%s.rs' % (V, prop.lower())).read().split('\n')
    fn = entry[len('h_c00_'):]
    for i, l in enumerate(ls):
        if l.startswith('pub fn %s()' % fn):
            j = i
            while j and ls[j - 1].startswith('///'):
                j -= 1
            k = i + 1
            while k < len(ls) and not ls[k].startswith('pub fn '):
                k += 1
            return ' '.join(x[3:].strip() for x in ls[j:i]), ls
    return '', ls


def bounds_of(prop, e, tn):
    b = e.get('bounds_t' if tn and e.get('bounds_t') else 'bounds', '')
    return '; '.join(x for x in (harness_text(prop, e['name'])[0], b) if x)


def code_text(prop, entry, code):
    ls = harness_text(prop, entry)[1]
    for l in ls:
        if re.search(r'(check|fail)\([^;]*\b%d\)' % code, l):
            m = re.search(r'(check|fail)\([^;]*\b%d\)' % code, l)
            return m.group(0)[:200]
    return ''


def load_known():
    p = os.path.join(V, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}


def cross_check(outdirs, limit):
    """thorough: the dumped SMT-LIB queries are decided again by cvc5 and a second z3"""
    res = Counter()
    jobs = []
    for d in outdirs:
        fs = sorted(glob.glob(d + '/smt/*.smt2'))[:limit]
        jobs += fs
    def one(f):
        exp = None
        for l in open(f):
            if l.startswith('; expect'):
                exp = l.split()[-1]
        out = []
        for name, c in (('cvc5', ['cvc5', '--tlimit=20000', f]), ('z3-new', ['z3-new', '-T:20', f])):
            try:
                o = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40).stdout.decode().split()
            except (subprocess.TimeoutExpired, OSError):
                o = ['unknown']
            v = o[0] if o else 'unknown'
            out.append((name, v, exp, f))
        return out
    with cf.ThreadPoolExecutor(8) as ex:
        for o in ex.map(one, jobs):
            for name, v, exp, f in o:
                if v not in ('sat', 'unsat'):
                    res[name + ' undecided'] += 1
                elif exp in ('sat', 'unsat') and v != exp:
                    res[name + ' DISAGREES'] += 1
                else:
                    res[name + ' agrees'] += 1
    return dict(res)


def check(prop, tier, only, t0):
    P = spec.PROPS[prop]
    ents = [e for e in P['entries'] if (not only or e['name'] in only) and not (tier == 'quick' and e.get('thorough_only'))]
    tn = 1 if tier == 'thorough' else 0
    ex = cf.ThreadPoolExecutor(8)
    fd = ex.submit(build_native, prop, 'dev')
    fsym = ex.submit(build_symir)
    ll, tbuild = build_ir(prop)
    symir = fsym.result()
    par = min(len(ents), P.get('par', 3))
    jobs = max(2, 8 // par)
    with cf.ThreadPoolExecutor(par) as pool:
        rs = list(pool.map(lambda e: run_entry(symir, ll, e, tier, jobs), ents))
    dev = fd.result()
    errors = [x for r in rs for x in r['errors']]
    # replay
    kf = load_known()
    viols, kfound, validated, samples, mism = [], {}, 0, [], []
    rel = None
    for e, r in zip(ents, rs):
        desc = e.get('codes', {})
        for c in r['cases']:
            if c['kind'] in ('ok',):
                n = replay(dev, r['entry'], c['bytes'], tn)
                if n['kind'] != 'ok' or n['obs'] != c['obs'] or n['reach'] != c['reach']:
                    mism.append((r['entry'], c, n))
                else:
                    validated += 1
                    if len(samples) < 6:
                        samples.append({'entry': r['entry'], 'input': c['bytes'][:200], 'outcome': 'holds', 'reached': c['reach'], 'steps': c['steps'], 'observed': c['obs'][:6]})
                for k in c.get('known', []):
                    if n['kind'] == 'ok' and k in n['known']:
                        hit = [x for x in kf['known'] if x['property'] == prop and x['entry'] == r['entry'] and x['id'] == k]
                        if hit:
                            kfound[(r['entry'], k)] = hit[0]
                        else:
                            viols.append((r['entry'], dict(c, kind='known', code=k, msg='unlisted finding'), n, 'dev'))
            elif c['kind'] in ('fail', 'panic', 'mem'):
                if len([v for v in viols if v[0] == r['entry']]) >= 3:
                    continue
                n = replay(dev, r['entry'], c['bytes'], tn); prof = 'dev'
                def rep(n):
                    return (c['kind'] == 'fail' and n['kind'] == 'fail' and n['code'] == c['code']) or (c['kind'] != 'fail' and n['kind'] in ('panic', 'crash', 'timeout'))
                if not rep(n):
                    rel = rel or build_native(prop, 'release')
                    n2 = replay(rel, r['entry'], c['bytes'], tn)
                    if rep(n2):
                        n, prof = n2, 'release'
                if rep(n):
                    viols.append((r['entry'], c, n, prof))
                else:
                    mism.append((r['entry'], c, n))
    for en, c, n in mism[:5]:
        errors.append('%s: native run differs from the symbolic run: symbolic %s/%s %s obs %s reach %s, native %s/%s %s obs %s reach %s, input %s' % (en, c['kind'], c['code'], c['msg'][:200], c['obs'][:8], c['reach'], n['kind'], n['code'], n['msg'][:200], n['obs'][:8], n['reach'], c['bytes'][:400]))
    tot = Counter()
    for r in rs:
        for k, v in r['tot'].items():
            tot[k] = max(tot[k], v) if (k.startswith('max') or k == 'nodes') else tot[k] + v
    cross = {}
    if tn:
        cross = cross_check([r['out'] for r in rs if 'out' in r], 40)
        if any('DISAGREES' in k for k in cross):
            errors.append('solver disagreement: %s' % cross)
    os.makedirs(V + '/evidence', exist_ok=True)
    shutil.rmtree('%s/evidence/%s.replay' % (V, prop), ignore_errors=True)
    lines = []
    seen = set()
    for en, c, n, prof in viols:
        key = (en, c['kind'], c['code'], n['msg'] if c['kind'] != 'fail' else '')
        if key in seen:
            continue
        seen.add(key)
        d = '%s/evidence/%s.replay' % (V, prop); os.makedirs(d, exist_ok=True)
        f = '%s/%d.json' % (d, len(seen))
        what = code_text(prop, en, c['code']) if c['kind'] == 'fail' else ''
        json.dump({'property': prop, 'entry': en, 'tier': tier, 'input': c['bytes'], 'kind': c['kind'], 'code': c['code'], 'what': what, 'msg': n['msg'] or c['msg'], 'profile': prof, 'native': n,
                   'replay': 'SYM_TIER=%d %s/build/replay-%s-%s %s %s' % (tn, V, prop, prof, en, c['bytes'])}, open(f, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, f))
        print('  %s: %s code=%s %s %s' % (en, c['kind'], c['code'], what, (n['msg'] or c['msg'])[:200]))
    own = sorted({f for r in rs for f in r.get('funcs', []) if 'didcomm' in f})
    cov = {
        'states': int(tot['paths'] + tot['forks']), 'transitions': int(tot['insts']), 'traces_validated_against_impl': validated, 'samples': samples or [{'note': 'no passing path sampled'}],
        'paths': int(tot['paths']), 'paths_confirmed_by_z3': int(tot['confirmed']), 'instructions_executed_symbolically': int(tot['insts']),
        'solver_queries': int(tot['queries']), 'solver_unsat': int(tot['unsat']), 'solver_time_s': round(tot['solver_time'], 3), 'longest_query_s': round(tot['max_query'], 4), 'query_cache_hits': int(tot['cache_hits']), 'queries_decided_by_evaluation_of_all_assignments': int(tot['enumerated']), 'solver_unknown': int(tot['unknown']),
        'assertions_folded_to_constant': int(tot['checks_folded']), 'assertions_discharged_by_z3': int(tot['checks_z3']), 'branches_infeasible_by_byte_domain': int(tot['dom_infeasible']), 'branches_infeasible_by_z3': int(tot['z3_infeasible']), 'domain_verdicts_confirmed_by_z3': int(tot['audited']),
        'max_symbolic_input_bytes': int(tot['maxvars']), 'solver': next((r['z3'] for r in rs if 'z3' in r), ''),
        'functions_encoded': own[:400], 'functions_encoded_total': len({f for r in rs for f in r.get('funcs', [])}),
        'entries': [{'entry': r['entry'], 'bounds': bounds_of(prop, e, tn), 'paths': int(r['tot']['paths']), 'ends': dict(r['ends']), 'reach': {str(k): v for k, v in sorted(r['reach'].items())}, 'wall_s': round(r['wall'], 2)} for e, r in zip(ents, rs)],
        'outside_the_bounds': P.get('outside', spec.OUTSIDE), 'ir_build_s': round(tbuild, 1), 'second_solver': cross,
        'known_findings': sorted('%s/%s' % k for k in kfound), 'errors': errors[:10],
    }
    json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
               'assumptions': spec.ASSUME + P.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(seen)}, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for (en, k), x in sorted(kfound.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, x['what']))
    for r in rs:
        print('%-28s paths %-7d insts %-11d queries %-6d solver %.1fs wall %.1fs %s' % (r['entry'], r['tot']['paths'], r['tot']['insts'], r['tot']['queries'], r['tot']['solver_time'], r['wall'], dict(r['ends'])))
    print('%s: replayed %d paths natively, build %.0fs, total %.0fs' % (prop, validated, tbuild, time.time() - t0))
    if lines:
        for l in lines:
            print(l)
        for x in errors:
            print('note: ' + x)
        return 1
    if errors:
        for x in errors:
            print('ERROR: ' + x)
        return 2
    return 0


def main():
    t0 = time.time()
    a = sys.argv[1:]
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if a[0] == 'build':
            with cf.ThreadPoolExecutor(4) as ex:
                p0 = sorted(spec.PROPS)[0]
                f = [ex.submit(build_symir), ex.submit(build_native, p0, 'dev')]
                build_ir(p0)
                for x in f:
                    x.result()
            print('built in %.0fs' % (time.time() - t0))
            return 0
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        only = [a[i + 1] for i in range(len(a)) if a[i] == '--entry']
        return check(a[0], tier, only, t0)
    except Err as e:
        print('ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
