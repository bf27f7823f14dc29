#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decides one property of /repo's current tree."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import *

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, 'work'))
REPO = '/repo'
HLLX = os.path.join(WORK, 'hllx', 'release', 'hllx')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
T0 = time.time()

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

def sh(cmd, timeout=600, **kw):
    e = dict(ENV, **kw.pop('env', {}))
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, **kw)
    except subprocess.TimeoutExpired as x:
        return subprocess.CompletedProcess(cmd, 124, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout')

# ------------------------------------------------------------------ building
def build_hllx():
    r = sh(['cargo', 'build', '--offline', '--release', '--target-dir', os.path.join(WORK, 'hllx')], cwd=os.path.join(VERIF, 'tools/hllx'))
    if r.returncode:
        raise SystemExit('hllx does not build:\n' + r.stderr[-3000:])

def build_finder(cfg):
    td = os.path.join(WORK, 'finder-' + cfg)
    r = sh(['cargo', 'build', '--offline', '--release', '--features', FINDER_FEATURES[cfg], '--target-dir', td], cwd=os.path.join(VERIF, 'tools/finder'))
    return (os.path.join(td, 'release', 'finder'), None) if r.returncode == 0 else (None, r.stderr[-6000:])

def build_leaf():
    td = os.path.join(WORK, 'leaf')
    r = sh(['cargo', 'build', '--offline', '--release', '--target-dir', td], cwd=os.path.join(VERIF, 'tools/leaf'))
    return os.path.join(td, 'release', 'leaf') if r.returncode == 0 else None

def expand(cfg, out):
    r = sh(['cargo', 'rustc', '--offline', '--manifest-path', REPO + '/Cargo.toml', '--lib'] + CONFIGS[cfg] + ['--', '-Zunpretty=expanded'],
           env={'RUSTC_BOOTSTRAP': '1', 'CARGO_TARGET_DIR': os.path.join(WORK, 'expand-' + cfg)})
    if r.returncode:
        return r.stderr[-6000:]
    open(out, 'w').write(r.stdout)
    return None

# ------------------------------------------------------------------ verification
def parse_diag(text):
    out = []
    for l in text.splitlines():
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level') == 'error' and not d.get('message', '').startswith('aborting due'):
            out.append(d)
    return out

SEMANTIC = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
            'possible arithmetic', 'possible division by zero', 'possible bit shift', 'decreases not satisfied', 'unable to prove', 'assertion not satisfied', 'possible shift', 'possible truncation', 'constructed value may fail', 'unreachable', 'loop invariant', 'cannot show', 'requires not satisfied')

def classify(msg):
    m = msg.lower()
    if 'rlimit' in m or 'resource limit' in m:
        return 'rlimit'
    if any(s in m for s in SEMANTIC):
        return 'obligation'
    return 'compile'

class Units:
    """The functions and lemmas of a generated file by line."""
    def __init__(self, path, meta):
        self.lines = open(path).read().split('\n')
        self.u = []  # (name, first, last, kind)
        self.info = {}
        for f in meta['functions']:
            if 'lines' in f:
                self.u.append((f['key'], f['lines'][0], f['lines'][1], 'fn'))
                self.info[f['key']] = f
        ext = []
        head = min([x[1] for x in self.u] or [1])
        for fl in meta['files']:
            ext.append((fl['lines'][0], fl['lines'][1]))
        rx = re.compile(r'^\s*(?:pub )?(?:broadcast )?(?:open |closed |uninterp )?(?:proof|spec|exec)? ?fn (\w+)')
        for a, b in [(1, head - 1)] + ext:
            cur = None
            for i in range(a, min(b, len(self.lines)) + 1):
                m = rx.match(self.lines[i - 1])
                if m:
                    if cur:
                        self.u.append((cur[0], cur[1], i - 1, 'lemma' if cur[2] else 'spec'))
                    cur = (m.group(1), i, 'proof' in self.lines[i - 1].split('fn')[0])
            if cur:
                self.u.append((cur[0], cur[1], b, 'lemma' if cur[2] else 'spec'))

    def at(self, line):
        for n, a, b, k in self.u:
            if a <= line <= b:
                return n, k
        return None, None

    def text(self, name):
        return '\n'.join('\n'.join(self.lines[a - 1:b]) for n, a, b, k in self.u if n == name)

    def lemmas_of(self, names):
        """all lemmas the given functions and lemmas use, transitively"""
        known = {n for n, a, b, k in self.u if k == 'lemma'}
        todo, seen = list(names), set()
        while todo:
            x = todo.pop()
            for w in set(re.findall(r'\b(?:lemma|theorem|axiom)_\w+', self.text(x))):
                if w in known and w not in seen and w != x:
                    seen.add(w)
                    todo.append(w)
        return seen

def verus(path, extra=()):
    r = sh(['verus', path, '--triggers-mode', 'silent', '--error-format=json', '--output-json', '--time-expanded'] + list(extra), timeout=420, cwd=os.path.dirname(path))
    try:
        js = json.loads(r.stdout)
    except ValueError:
        js = None
    return r, js

def breakdown(js):
    out = {}
    if js:
        for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                n = f['function'].split('::', 1)[1]
                o = out.setdefault(n, dict(ms=0.0, rlimit=0, ok=True))
                o['ms'] += f['time-micros'] / 1000
                o['rlimit'] += f['rlimit']
                o['ok'] = o['ok'] and f['success']
    return out

def fails_of(diags, units):
    fails = {}
    for d in diags:
        sp = [s for s in d.get('spans', [])]
        prim = [s for s in sp if s.get('is_primary')] or sp
        name = None
        for s in prim + sp:
            n, k = units.at(s['line_start'])
            if n:
                name = n
                if k == 'fn':
                    break
        fails.setdefault(name or '?', []).append(dict(kind=classify(d['message']), message=d['message'], rendered=(d.get('rendered') or '')[:2500],
            at=[(s['line_start'], (s.get('label') or ''), (s['text'][0]['text'].strip() if s.get('text') else '')[:160]) for s in sp]))
    return fails

def verify(cfg, expanded, wd):
    """Runs the verifier for one feature set; returns a result dictionary."""
    res = dict(config=cfg, failed=[], undecided=[], stubs=[], error=None)
    out, metap = os.path.join(wd, 'v_%s.rs' % cfg), os.path.join(wd, 'm_%s.json' % cfg)
    stubs, variant, tried, why = [], {}, {}, {}
    t = time.time()
    def leave_out(n, reason):
        log(cfg, 'not accepted by the verifier, left out:', n, '|', reason[:160])
        why[n] = reason[:300]
        variant.pop(n, None)
        stubs.append(n)
    def other_hints(n, meta):
        """switch to the next set of hints of that function, if there is one"""
        f = next((f for f in meta['functions'] if f['key'] == n), {})
        done = tried.setdefault(n, [])
        for v in f.get('variants', []):
            if v not in done:
                done.append(v)
                variant[n] = v
                return True
        return False
    settled = {}  # functions whose sets of hints are exhausted: the failures with the first set
    if os.path.exists(out[:-3] + '_tables.rs'):
        os.remove(out[:-3] + '_tables.rs')
    for attempt in range(24):
        cmd = [HLLX, expanded, os.path.join(VERIF, 'spec'), out, metap]
        for s in stubs:
            cmd += ['--stub', s]
        for n, v in variant.items():
            cmd += ['--variant', '%s=%s' % (n, v)]
        r = sh(cmd, timeout=120)
        if r.returncode:
            res['error'] = 'extraction failed: ' + (r.stderr or r.stdout)[-1500:]
            return res
        meta = json.load(open(metap))
        units = Units(out, meta)
        r, js = verus(out)
        diags = parse_diag(r.stderr)
        comp = [d for d in diags if classify(d['message']) == 'compile']
        vr = (js or {}).get('verification-results', {})
        if not (js and vr.get('encountered-vir-error') is False and not comp and vr.get('verified', 0) > 0):
            # something the verifier cannot take: other hints, or leave those functions out
            new = {}
            for d in comp:
                for s in d.get('spans', []):
                    if s.get('is_primary'):
                        n, k = units.at(s['line_start'])
                        if k == 'fn' and n not in stubs:
                            new.setdefault(n, d['message'])
            if not new and 'panicked' in (r.stderr or ''):
                # the verifier itself gave up: leave out what differs from the text it is known to take
                for f in meta['functions']:
                    if f.get('same') is not True and f.get('status') == 'contract':
                        new[f['key']] = 'the verifier ends abnormally on the changed functions'
                        tried[f['key']] = f.get('variants', [])
            if not new:
                res['error'] = 'the verifier does not accept the extracted text: ' + '; '.join(d['message'] for d in comp[:4]) if comp else 'the verifier gave no result: ' + (r.stderr or '')[-800:]
                return res
            for n, m in new.items():
                if n in settled:
                    leave_out(n, m)
                elif not other_hints(n, meta):
                    if variant.get(n) and n in why and why[n] == 'failed':
                        # the first set was accepted, with failures: keep that
                        variant.pop(n)
                        settled[n] = True
                    else:
                        leave_out(n, m)
            continue
        fails = fails_of(diags, units)
        again = False
        for n in fails:
            if n in settled or n in stubs or n == '?':
                continue
            why.setdefault(n, 'failed')
            if other_hints(n, meta):
                again = True
            elif n in variant:
                variant.pop(n)
                settled[n] = True
                again = True
        if not again:
            break
    else:
        res['error'] = 'too many functions outside the dialect'
        return res
    res['stubs'], res['variants'] = stubs, variant
    res['undecided'] += [dict(function=n, why=why[n]) for n in stubs]
    res['meta'], res['units'], res['file'] = meta, units, out
    res['times'] = breakdown(js)
    res['verified'], res['errors'] = vr['verified'], vr['errors']
    res['smt_ms'] = js.get('times-ms', {}).get('smt', {}).get('total', 0)
    tab = out[:-3] + '_tables.rs'
    if os.path.exists(tab):
        res['tables'] = verify_tables(tab)
    # an honest second look at each: more resources, other seeds
    for name, es in fails.items():
        if name == '?':
            res['failed'].append(dict(unit=name, errors=es))
            continue
        ok = False
        for opts in ([], ['--smt-option', 'smt.random_seed=7'], ['--smt-option', 'smt.random_seed=99']):
            r2, js2 = verus(out, ['--rlimit', '40', '--verify-root', '--verify-function', '*::' + name if '::' not in name else '*' + name] + opts)
            b = [d for d in parse_diag(r2.stderr)]
            if js2 and js2['verification-results'].get('verified', 0) > 0 and js2['verification-results'].get('errors') == 0:
                ok = True
                break
            if js2 and js2['verification-results'].get('verified', 0) + js2['verification-results'].get('errors', 0) == 0:
                break  # the pattern matched nothing
            if b and all(classify(x['message']) != 'rlimit' for x in b) and opts:
                break
            if b and any(classify(x['message']) == 'rlimit' for x in b):
                es = es + [dict(kind='rlimit', message='rlimit', rendered='', at=[])]
        if ok:
            log(cfg, name, 'verified at the second attempt')
            continue
        res['failed'].append(dict(unit=name, errors=es))
    # hints that no longer fit: the proof of such a function says nothing when it fails
    # (when it succeeds it is a proof: hints carry no meaning of their own)
    failed = {x['unit'] for x in res['failed']}
    for f in meta['functions']:
        if f['key'] in failed and (f.get('lost') or f.get('skipped')):
            res['undecided'].append(dict(function=f['key'], why='contract hints without a place: %s' % (f['lost'] or 'an early return')))
        if f.get('status') == 'no contract':
            res['undecided'].append(dict(function=f['key'], why='function without a contract'))
    res['wall'] = time.time() - t
    return res

def verify_tables(path):
    """The bias tables as extracted: their shape and their entries, by computation, in a file of their own
    (a computation with the result false ends a whole run of the verifier)."""
    src = open(path).read()
    head, *rest = re.split(r'^//# ?(\w*)$', src, flags=re.M)
    parts = dict(zip(rest[0::2], rest[1::2]))
    end = parts.pop('')
    res = {}
    for n, body in parts.items():
        p = path[:-3] + '_' + n + '.rs'
        open(p, 'w').write(head + body + end)
        r, js = verus(p)
        vr = (js or {}).get('verification-results', {})
        ok = vr.get('encountered-vir-error') is False and vr.get('errors') == 0 and vr.get('verified', 0) > 0 and r.returncode == 0
        ms = sum(v['ms'] for v in breakdown(js).values()) if ok else 0
        res[n] = dict(ok=ok, ms=ms, why='' if ok else '; '.join(d['message'] for d in parse_diag(r.stderr)[:2]) or (r.stderr or '')[-200:])
    return res

def verify_derive(kind, cfg, expanded, wd):
    """The code the derive macros expand to (kind: clone or serde), in a file of its own."""
    name = '%s (%s)' % (cfg, kind)
    res = dict(config=name, derive=kind, failed=[], undecided=[], stubs=[], error=None, verified=0, times={}, variants={})
    out, metap = os.path.join(wd, 'd_%s_%s.rs' % (kind, cfg)), os.path.join(wd, 'dm_%s_%s.json' % (kind, cfg))
    for f in (out, metap):
        if os.path.exists(f):
            os.remove(f)
    r = sh([HLLX, 'derive', kind, expanded, os.path.join(VERIF, 'spec'), out, metap], timeout=120)
    if r.returncode or not os.path.exists(metap):
        res['error'] = 'extraction failed: ' + (r.stderr or r.stdout)[-1500:]
        return res
    meta = json.load(open(metap))
    meta.update(files=[], renamed_functions={}, missing_contracts=[], dropped=['expecting() of the visitors (error texts)', 'lifetimes of the deserializers', 'string literals (numbered, equal ones alike)'], notes=[])
    units = Units(out, meta)
    for opts in ([], ['--rlimit', '40'], ['--rlimit', '40', '--smt-option', 'smt.random_seed=7']):
        r, js = verus(out, opts)
        vr = (js or {}).get('verification-results', {})
        diags = parse_diag(r.stderr)
        comp = [d for d in diags if classify(d['message']) == 'compile']
        if comp or not js or vr.get('encountered-vir-error') is not False or vr.get('verified', 0) == 0:
            res['error'] = 'the verifier does not accept the %s code: %s' % (kind, '; '.join(d['message'] for d in comp[:3]) or (r.stderr or '')[-500:])
            return res
        fails = fails_of(diags, units)
        if not fails:
            break
    res.update(meta=meta, units=units, file=out, verified=vr['verified'], errors=vr['errors'], smt_ms=js.get('times-ms', {}).get('smt', {}).get('total', 0))
    info = {f['key']: f for f in meta['functions']}
    for n, es in fails.items():
        res['failed'].append(dict(unit=n, errors=es))
        if n not in info or info[n]['unsure']:
            res['undecided'].append(dict(function=n, why=(info.get(n) or {}).get('unsure') or 'not a unit of its own'))
    for b in meta['unsupported']:
        res['undecided'].append(dict(function=b.split(':')[0], why='outside the dialect: ' + b))
    for t in ['HyperLogLogPF'] + ([] if 'alloc' in cfg else ['HyperLogLogPlus']):
        for u in (['::clone'] if kind == 'clone' else ['::serialize', '::deserialize', ' (round trip)']):
            if t + u not in info:
                res['undecided'].append(dict(function=t + u, why='not found among the expanded code'))
    return res

# ------------------------------------------------------------------ the f64 axioms
def coq(wd):
    """Checks proofs/*.v: every f64 axiom of spec/05_f64.rs is a theorem about IEEE 754 binary64."""
    d = os.path.join(wd, 'coq')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = time.time()
    for f in ('F64Model', 'F64Bits', 'F64'):
        shutil.copy(os.path.join(VERIF, 'proofs', f + '.v'), d)
    res = dict(ok=False, prover='Coq 8.16 with Flocq 4.1', theorems=[], on=[])
    r = sh(['python3', os.path.join(VERIF, 'tools/f64stmt.py'), os.path.join(d, 'Stmt.v')])
    if r.returncode:
        return dict(res, why=(r.stderr or r.stdout)[-400:])
    for f in ('F64Model', 'F64Bits', 'F64', 'Stmt'):
        r = sh(['coqc', f + '.v'], cwd=d, timeout=300)
        if r.returncode:
            return dict(res, why='%s: %s' % (f, (r.stderr or r.stdout)[-400:]))
    res['theorems'] = re.findall(r'^Definition (axiom_\w+)_holds', open(os.path.join(d, 'Stmt.v')).read(), re.M)
    res['on'] = sorted({l.split(' :')[0].split()[0] for l in r.stdout.splitlines() if l and not l[0].isspace() and not l.startswith(('Axioms', 'Closed', 'axiom_'))})
    admitted = [f for f in ('F64Model', 'F64Bits', 'F64') if re.search(r'\b(Admitted|admit|Axiom|Parameter|Conjecture)\b', open(os.path.join(d, f + '.v')).read())]
    foreign = [a for a in res['on'] if not a.startswith(('ClassicalDedekindReals.', 'Classical_Prop.', 'FunctionalExtensionality.'))]
    if admitted or foreign or not res['theorems']:
        return dict(res, why='not proved: %s %s' % (admitted, foreign))
    res.update(ok=True, wall_s=round(time.time() - t, 1))
    return res

# ------------------------------------------------------------------ searching
def run_finder(binary, prop, seconds, seed, out):
    if os.path.exists(out):
        os.remove(out)
    r = sh([binary, prop, '--seconds', str(seconds), '--seed', str(seed), '--out', out], timeout=seconds + 150)
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        return dict(failure=None, crashed=r.returncode, stderr=r.stderr[-500:])

def replay_file(prop, name, obj):
    d = os.path.join(WORK, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, name))
    json.dump(obj, open(p, 'w'), indent=1)
    return p

def known(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    thorough = tier == 'thorough'
    cfgs = list(P.get('configs', ['default']))
    if thorough and pid not in ('C20',):
        cfgs += [c for c in ('cl',) if c not in cfgs]
    wd = os.path.join(WORK, 'run-' + pid)
    os.makedirs(wd, exist_ok=True)
    ex = cf.ThreadPoolExecutor(16)
    hl = ex.submit(build_hllx)
    fcfgs = ['default'] + ([c for c in cfgs if c != 'default'] if P.get('features') or thorough else [])
    if pid == 'C20':
        fcfgs = ['alloc']
    fb = {c: ex.submit(build_finder, c) for c in fcfgs}
    lb = ex.submit(build_leaf) if pid in LEAF or pid == 'C19' else None
    dcfgs = ['default', 'alloc'] if P.get('derive') else []
    exps = {c: ex.submit(expand, c, os.path.join(wd, 'e_%s.rs' % c)) for c in dict.fromkeys(cfgs + dcfgs)}
    hl.result()

    violations, notes = [], []
    results = {}
    def work(c):
        err = exps[c].result()
        if err:
            return dict(config=c, error='the feature set does not build: ' + err[-600:], failed=[], undecided=[], stubs=[], nobuild=True)
        return verify(c, os.path.join(wd, 'e_%s.rs' % c), wd)
    def dwork(c):
        err = exps[c].result()
        if err:
            return dict(config=c, derive=P['derive'], error='the feature set does not build: ' + err[-600:], failed=[], undecided=[], stubs=[])
        return verify_derive(P['derive'], c, os.path.join(wd, 'e_%s.rs' % c), wd)
    vf = {c: ex.submit(work, c) for c in cfgs}
    estimates = any(n.rsplit('::')[-1] in ('count', 'estimate_bias', 'log') for n in P['direct'] + P['cone'])
    cq = ex.submit(coq, wd) if estimates else None
    df = {'%s (%s)' % (c, P.get('derive')): ex.submit(dwork, c) for c in dcfgs}

    # --- the search that validates the trusted base, while the verifier runs
    base_s = 45 if thorough else 5
    finders, search = {}, []
    for c in fcfgs:
        b, err = fb[c].result()
        if b is None:
            notes.append('the search program does not build for %s' % c)
            if P.get('features') and 'hyperloglogplus' in (err or '') and c != 'default':
                violations.append(dict(msg='the library does not build with features %s' % FINDER_FEATURES[c], replay=dict(property=pid, build=FINDER_FEATURES[c], output=err), name='build-' + c))
        else:
            finders[c] = b
    leafbin = lb.result() if lb else None
    if lb and not leafbin:
        notes.append('the leaf modules cannot be called directly any more')
    def look(seconds, seed, tag):
        found = []
        for c, b in finders.items():
            if P.get('features') and c == 'default':
                continue
            todo = [pid] if not P.get('features') else (['C02', 'C09', 'C13', 'C17'] if 'alloc' in c else ['C13', 'C14', 'C15', 'C12'])
            if pid == 'C20':
                todo = ['C13']
            for q in todo:
                s = max(1, seconds / len(todo))
                r = run_finder(b, q, s, seed, os.path.join(wd, 'f_%s_%s_%s.json' % (c, q, tag)))
                search.append(dict(config=c, oracle=q, cases=r.get('cases', 0), evaluations=r.get('evaluations', 0), judged_states=r.get('judged', 0), seconds=round(r.get('seconds', 0), 1), samples=r.get('samples', [])[:1]))
                if 'crashed' in r:
                    notes.append('search on %s ended abnormally (%s)' % (c, r.get('crashed')))
                if r.get('failure'):
                    fl = r['failure']
                    if P.get('features') and 'default' in finders:
                        # is it the feature set, or is it so in every build?
                        p = replay_file(pid, 'candidate', fl)
                        d = sh([finders['default'], '--replay', p], timeout=120)
                        if d.returncode != 0:
                            notes.append('also fails in the default build, so no matter of features: ' + fl['message'][:200])
                            continue
                    if pid == 'C20':
                        notes.append('classic estimate differs in the no_std build: ' + fl['message'][:200])
                        continue
                    found.append(dict(msg=fl['message'], replay=dict(fl, finder_features=FINDER_FEATURES[c]), name='case-' + c))
                    return found
        if leafbin:
            r = run_finder(leafbin, pid, seconds, seed, os.path.join(wd, 'l_%s.json' % tag))
            search.append(dict(config='leaf', oracle=pid, evaluations=r.get('evaluations', 0), seconds=round(r.get('seconds', 0), 1), samples=r.get('samples', [])[:1]))
            if r.get('failure'):
                fl = r['failure']
                found.append(dict(msg=fl['message'], replay=dict(fl), name='leaf'))
        return found
    violations += look(base_s, seed, 'base')

    for c in cfgs:
        results[c] = vf[c].result()
        r = results[c]
        log(c, 'verified %s, failed %s, undecided %s%s' % (r.get('verified'), [x['unit'] for x in r['failed']], sorted({u['function'] for u in r['undecided']}), ', ' + r['error'][:200] if r['error'] else ''))
        if r.get('nobuild') and P.get('features') and c != 'default' and not violations:
            violations.append(dict(msg=r['error'], replay=dict(property=pid, build=c, output=r['error']), name='build-' + c))

    for c in df:
        r = results[c] = df[c].result()
        log(c, 'verified %s, failed %s, undecided %s%s' % (r.get('verified'), [x['unit'] for x in r['failed']], sorted({u['function'] for u in r['undecided']}), ', ' + r['error'][:200] if r['error'] else ''))

    # --- which entries of the tables differ from the published ones
    differing = None
    if estimates and 'default' in finders and results.get('default', {}).get('meta'):
        t = sh([finders['default'], '--tables', os.path.join(wd, 'm_default.json')])
        try:
            differing = json.loads(t.stdout)['bad']
        except ValueError:
            differing = [dict(missing='the tables could not be read')]
        bad = differing if P.get('tables') else []
        if any(b.get('missing') for b in bad):
            notes.append('the tables were not found as constants: %s' % bad)
        elif bad and not violations:
            violations.append(dict(msg='the tables differ from the published ones: %s' % json.dumps(bad[:3]), replay=dict(property=pid, tables=bad), name='tables'))

    # --- what do failed obligations mean for this property?
    direct, cone = set(P['direct']), set(P['direct']) | set(P['cone'])
    mine, others, undecided = [], [], []
    lemma_cone = set()
    for c, r in results.items():
        if r['error']:
            undecided.append(dict(config=c, function='*', why=r['error'][:400]))
            continue
        if r.get('derive'):
            unsure = {u['function'] for u in r['undecided']}
            undecided += [dict(config=c, **u) for u in r['undecided']]
            for x in r['failed']:
                kinds = {e['kind'] for e in x['errors']}
                rec = dict(config=c, unit=x['unit'], kinds=sorted(kinds), errors=x['errors'])
                if 'rlimit' in kinds:
                    undecided.append(dict(config=c, function=x['unit'], why='the solver ran out of resources'))
                (others if 'rlimit' in kinds or x['unit'] in unsure else mine).append(rec)
            continue
        ren = {v: k for k, v in r['meta']['renamed_functions'].items()}
        lem = r['units'].lemmas_of(list(cone) + P['theorems']) | set(P['theorems'])
        lemma_cone |= lem
        bad_anchor = {u['function'] for u in r['undecided']}
        # what a function without a contract does is unknown to its callers: their failing says nothing
        blank = [u['function'].rsplit('::')[-1] for u in r['undecided'] if u['why'] == 'function without a contract']
        if blank:
            pat = re.compile(r'\b(?:%s)\b' % '|'.join(map(re.escape, blank)))
            bad_anchor |= {x['unit'] for x in r['failed'] if pat.search(r['units'].text(x['unit']) or '')}
        for u in r['undecided']:
            if ren.get(u['function'], u['function']) in cone or u['why'] == 'function without a contract':
                undecided.append(dict(config=c, **u))
        missing = [m for m in r['meta']['missing_contracts'] if m in cone and not (m in ('RAW', 'log') or c.startswith('alloc'))]
        for m in missing:
            undecided.append(dict(config=c, function=m, why='no function for this contract'))
        for x in r['failed']:
            n = ren.get(x['unit'], x['unit'])
            kinds = {e['kind'] for e in x['errors']}
            rec = dict(config=c, unit=n, kinds=sorted(kinds), errors=x['errors'])
            if n not in cone and n not in lem and n != '?':
                continue
            if 'rlimit' in kinds or x['unit'] in bad_anchor or n == '?':
                undecided.append(dict(config=c, function=n, why='not discharged: ' + ', '.join(sorted({e['message'] for e in x['errors']}))[:300]))
                others.append(rec)
                continue
            safety = [e for e in x['errors'] if e['message'].startswith('possible') or e['message'].startswith('decreases') or 'precondition' in e['message']]
            if n in direct and (not P.get('safety') or safety) and not missing:
                mine.append(rec)
            else:
                others.append(rec)
    coqr = cq.result() if cq else None
    if coqr and not coqr['ok']:
        undecided.append(dict(config='coq', function='f64 axioms', why=coqr['why']))
    tabs = {}  # (config, lemma) -> result, of the lemmas proved of the tables by computation
    for c, r in results.items():
        if r['error'] or r.get('derive'):
            continue
        for n in (['theorem_published'] if P.get('tables') else []) + (['lemma_rows'] if 'lemma_rows' in lemma_cone and r['units'].text('lemma_rows') else []):
            x = tabs[(c, n)] = (r.get('tables') or {}).get(n, dict(ok=False, ms=0, why='the tables were not found as constants'))
            if not x['ok']:
                undecided.append(dict(config=c, function=n, why=x['why']))
    failing = mine + others
    if (failing or undecided) and not violations:
        s = 60 if not thorough else 240
        if not mine and not others:
            s = s / 2
        log('obligations not discharged (%s); searching for a failing input for %ds' % (sorted({x['unit'] for x in failing}) or sorted({u['function'] for u in undecided}), s))
        violations += look(s, seed + 1000, 'deep')

    nfi = False
    if not violations and mine:
        x = mine[0]
        nfi = True
        violations.append(dict(msg='obligation of %s not discharged: %s' % (x['unit'], x['errors'][0]['message']), name='obligation',
            replay=dict(property=pid, obligation=x['unit'], config=x['config'], failed=[dict(message=e['message'], at=e['at']) for e in x['errors']],
                        verifier_output='\n'.join(e['rendered'] for e in x['errors']), all_failed=[m['unit'] for m in failing],
                        search=search, note='no failing input found by the search')))

    # --- evidence
    units_total, units_ok, per, solver = 0, 0, {}, 0.0
    for c, r in results.items():
        if r['error']:
            continue
        bad = {x['unit'] for x in r['failed']} | {u['function'] for u in r['undecided']}
        names = [n for n, a, b, k in r['units'].u if k in ('fn', 'lemma')]
        for n in dict.fromkeys(names):
            if r.get('derive'):
                if r['units'].info.get(n, {}).get('kind', 'proved') != 'proved':
                    continue
            elif not (n in cone or n in lemma_cone) or n.startswith('axiom_') or n == 'lemma_rows':
                continue
            units_total += 1
            ok = n not in bad
            units_ok += ok
            t = sum(v['ms'] for k, v in r['times'].items() if k == n or k.endswith('::' + n))
            solver += t
            per['%s/%s' % (c, n)] = dict(ok=ok, solver_ms=round(t, 1))
    for c, r in results.items():
        if r['error']:
            units_total += len(cone)
    used_axioms = sorted(a for a in lemma_cone if coqr and (a in coqr['theorems'])) if coqr else []
    for a in used_axioms:
        units_total += 1
        units_ok += coqr['ok']
        per['coq/' + a] = dict(ok=coqr['ok'], by='Coq')
    for (c, n), x in tabs.items():
        units_total += 1
        units_ok += x['ok']
        solver += x['ms']
        per['%s/%s' % (c, n)] = dict(ok=x['ok'], solver_ms=round(x['ms'], 1), by='computation in the verifier, on the extracted tables')
    level_reached = 'proved' if units_ok == units_total and not undecided and not failing else 'bounded: obligations of this property are not all discharged; the search below stands in'
    first = next((r for r in results.values() if not r['error'] and not r.get('derive')), None)
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - T0, 2), violations=len(violations),
        coverage=dict(
            obligations=units_total, discharged=units_ok,
            checker_cmd='verus <generated file> --triggers-mode silent (Z3 back end), one run per feature set: %s; generated from /repo by cargo rustc -- -Zunpretty=expanded and tools/hllx' % ', '.join(results),
            trusted_base=TRUSTED,
            rule='one obligation = one verified function or lemma (all its pre-, postconditions, invariants, overflow and bounds conditions) that the property rests on, per feature set',
            outcome=level_reached,
            functions_under_contract=sorted(set(n for n in cone if first and n in first['units'].info) | {n for r in results.values() if r.get('derive') and not r['error'] for n, i in r['units'].info.items() if i['kind'] == 'proved'}),
            property_contracts=sorted(direct), theorems=P['theorems'],
            back_end='Z3 through Verus' + ('; the f64 axioms by Coq with Flocq' if used_axioms else ''), f64_axioms=coqr and dict(coqr, used=used_axioms), table_entries_differing=None if differing is None else len(differing),
            std_bodies_verified=(first or {}).get('meta', {}).get('std', None), solver_ms=round(solver, 1), whole_run_solver_ms={c: r.get('smt_ms') for c, r in results.items()},
            verified_in_whole={c: r.get('verified') for c, r in results.items()}, failed_in_whole={c: [x['unit'] for x in r['failed']] for c, r in results.items()},
            per_obligation=per, undecided=undecided, not_discharged=[dict(config=x['config'], unit=x['unit'], messages=sorted({e['message'] for e in x['errors']})) for x in failing],
            dropped_by_extraction=(first or {}).get('meta', {}).get('dropped', []), extraction_notes=(first or {}).get('meta', {}).get('notes', []),
            not_under_contract=sorted({f['key'] for r in results.values() if not r['error'] for f in r['meta']['functions'] if f.get('status', 'contract') not in ('contract',)}),
            bounded_search=search, notes=notes),
        assumptions=TRUSTED)
    if thorough and first:
        ev['coverage']['vacuity'] = vacuity(wd, first, cone)
        ev['coverage']['seeds'] = seeds(first)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)

    for n in notes:
        log('note:', n)
    listed = known(pid)
    rc = 0
    for v in violations:
        key = hashlib.sha1(json.dumps(v['replay'].get('case') or v['replay'].get('leaf') or v['msg'], sort_keys=True).encode()).hexdigest()[:12]
        hit = [t for k, t in listed if k == key]
        if hit:
            continue
        p = replay_file(pid, v['name'], v['replay'])
        log(v['msg'][:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, p, ' no-failing-input-found' if nfi else ''), flush=True)
        rc = 1
        break
    for k, t in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, t), flush=True)
    log('%s %s: %d of %d obligations discharged; %s' % (pid, tier, units_ok, units_total, 'VIOLATED' if rc else level_reached))
    ex.shutdown(wait=False)
    sys.stdout.flush()
    os._exit(rc)

def vacuity(wd, r, cone):
    """every function must fail to prove false at its start: preconditions and axioms are satisfiable"""
    lines = list(r['units'].lines)
    want = []
    for f in r['meta']['functions']:
        if f.get('status') != 'contract' or f['key'] not in cone:
            continue
        a, b = f['lines']
        for i in range(a - 1, b):
            if lines[i].startswith('{'):
                lines[i] = '{ proof { assert(false); }' + lines[i][1:]
                want.append((f['key'], i + 1))
                break
    p = os.path.join(wd, 'vacuity.rs')
    open(p, 'w').write('\n'.join(lines))
    rr, js = verus(p, ['--multiple-errors', '0'])
    hit = {s['line_start'] for d in parse_diag(rr.stderr) if 'assertion failed' in d['message'] for s in d['spans']}
    vac = [k for k, l in want if l not in hit]
    if vac:
        log('WARNING: assert(false) is provable in', vac)
    return dict(functions=len(want), satisfiable=len(want) - len(vac), vacuous=vac)

def seeds(r):
    out = {}
    for s in (11, 42, 1234):
        rr, js = verus(r['file'], ['--smt-option', 'smt.random_seed=%d' % s])
        out[s] = dict(js['verification-results']) if js else None
    return out

if __name__ == '__main__':
    main()
