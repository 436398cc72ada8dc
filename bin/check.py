#!/usr/bin/env python3
"""check.py PROPERTY: decides one property with Kani/CBMC over /repo's current source.

Exit 0: every harness of the tier verified (and every reachability witness reachable).
Exit 1: a violation the solver found and a native run reproduced (VIOLATION line).
Exit 2: no answer (build failure, timeout, unreproducible counterexample, vacuous harness).
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
BUILD = os.path.join(VERIF, '.build')
HARNESS = os.path.join(VERIF, 'harness')
KANI = os.path.expanduser('~/.kani/kani-0.68.0')
CFG = '-Awarnings --cfg parcom_verif'
sys.path.insert(0, os.path.join(VERIF, 'bin'))
from meta import META  # noqa: E402

T0 = time.time()
BUDGET = 840


def left():
    return BUDGET - (time.time() - T0)


def die(msg):
    print('ERROR', msg)
    sys.exit(2)


def kani_home():
    """A Kani installation whose cbmc is our wrapper (everything else is a link to the real one)."""
    home = os.path.join(BUILD, 'kanihome')
    k = os.path.join(home, 'kani-0.68.0')
    os.makedirs(os.path.join(k, 'bin'), exist_ok=True)

    def link(src, dst):
        if os.path.lexists(dst):
            if os.path.islink(dst) and os.readlink(dst) == src:
                return
            os.unlink(dst)
        os.symlink(src, dst)
    for n in os.listdir(KANI):
        if n != 'bin':
            link(os.path.join(KANI, n), os.path.join(k, n))
    for n in os.listdir(os.path.join(KANI, 'bin')):
        if n != 'cbmc':
            link(os.path.join(KANI, 'bin', n), os.path.join(k, 'bin', n))
    link(os.path.join(VERIF, 'tools', 'cbmc_wrap.py'), os.path.join(k, 'bin', 'cbmc'))
    return home


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', RUSTFLAGS=CFG, VH_CBMC=os.path.join(KANI, 'bin', 'cbmc'))
    for k in ('RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e.update(META[sys.argv[1]].get('env', {}) if len(sys.argv) > 1 else {})
    e.update(kw)
    return e


def run(cmd, timeout, log=None, **kw):
    """Runs a command in its own process group; kills the group on timeout."""
    out = open(log, 'w') if log else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, _ = p.communicate()
        rc = 'timeout'
    if log:
        out.close()
        with open(log, errors='replace') as f:
            o = f.read()
    return rc, o


def declared(mod):
    """Harness names declared in the module's source."""
    with open(os.path.join(HARNESS, 'src', mod + '.rs')) as f:
        return re.findall(r'^\s*\[\d+\] fn (\w+)\(\)', f.read(), re.M)


def kani(mod, names, target, jobs, timeout, unwind=None):
    out = os.path.join(BUILD, 'out', mod)
    os.makedirs(out, exist_ok=True)
    js = os.path.join(out, 'kani.json')
    if os.path.exists(js):
        os.unlink(js)
    cmd = ['cargo', 'kani', '--lib', '--target-dir', target, '-j', str(jobs), '--output-format', 'terse', '--keep-temps',
           '-Z', 'stubbing', '-Z', 'unstable-options', '--no-assertion-reach-checks', '--export-json', js, '--harness-timeout', '%ds' % timeout, '--exact']
    for n in names:
        cmd += ['--harness', '%s::%s' % (mod, n)]
    if unwind:
        cmd += ['--unwind', str(unwind)]
    rc, o = run(cmd, left(), os.path.join(out, 'kani.log'), cwd=HARNESS, env=env(KANI_HOME=kani_home()))
    if not os.path.exists(js):
        if rc == 'timeout':
            die('time budget used up before the solver answered')
        errs = [l for l in o.splitlines() if l.startswith('error')]
        die('kani gave no result: ' + '; '.join(errs[:3] or o.splitlines()[-3:]))
    with open(js) as f:
        d = json.load(f)
    stats = {c['harness_id']: c.get('cbmc_stats') or {} for c in d['cbmc']}
    res = {}
    for r in d['verification_results']['results']:
        r['stats'] = stats.get(r['harness_id'], {})
        res[r['harness_id'].split('::')[-1]] = r
    return res


def sidecars(target):
    """pretty harness name -> (goto binary, sidecar)"""
    m = {}
    for f in glob.glob(os.path.join(target, '**', '*.vh.json'), recursive=True):
        goto = f[:-len('.vh.json')]
        k = re.search(r'\d+((?:q|t|k)_\w+)\.out$', goto)
        m[k.group(1)] = (goto, f)
    return m


def failed(r):
    return [c for c in r['checks'] if c['status'].upper() in ('FAILURE', 'FAILED')]


def is_unwind(c):
    return 'unwinding assertion' in c['description']


def unsupported(c):
    return 'is not currently supported by Kani' in c['description'] or 'unsupported' in c.get('property_class', '')


def cover_problem(r):
    return [c['description'] for c in r['checks']
            if c.get('category') == 'cover' and c['status'].upper() != 'SATISFIED']


def strip_id(desc):
    return re.sub(r'^\[?KANI_CHECK_ID[^\]\s]*\]?\s*', '', desc)


def property_ids(goto, fails):
    """cbmc's names of the failing checks Kani reported (so that only these get a trace)."""
    rc, o = run([os.path.join(KANI, 'bin', 'cbmc'), '--show-properties', '--json-ui', goto], left())
    try:
        props = [p for e in json.loads(o) if isinstance(e, dict) for p in e.get('properties', [])]
    except ValueError:
        return []
    want = {(c['function'], str(c['location'].get('line')), c['description']) for c in fails}
    out = []
    for p in props:
        l = p.get('sourceLocation', {})
        if p['class'] not in ('reachability_check', 'cover') and \
                (l.get('function'), str(l.get('line')), strip_id(p['description'])) in want:
            out.append(p['name'])
    return out[:8]


def witness(goto, side, unwind, fails):
    """The failing assertions of a goto binary, with the values of its nondeterministic inputs."""
    with open(side) as f:
        args = json.load(f)['args']
    args = [a for a in args if a not in ('--slice-formula', '--json-ui')]
    if unwind and '--unwind' in args:
        args[args.index('--unwind') + 1] = str(unwind)
    for i in property_ids(goto, [c for c in fails if not is_unwind(c)]):
        args += ['--property', i]
    cmd = [os.path.join(KANI, 'bin', 'cbmc')] + args + ['--trace', '--json-ui']
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=max(1, left()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        return []
    out = []
    try:
        d = json.loads(o)
    except ValueError:
        return []
    for e in d:
        for r in e.get('result', []) if isinstance(e, dict) else []:
            desc = r.get('description', '')
            if r.get('status') != 'FAILURE' or 'trace' not in r:
                continue
            if 'reachability_check' in r['property'] or '.cover.' in r['property']:
                continue
            vals = []
            for s in r['trace']:
                lhs = s.get('lhs', '')
                fn = s.get('sourceLocation', {}).get('function', '')
                if s.get('stepType') == 'assignment' and lhs.startswith('goto_symex$$return_value') and fn.startswith('kani::any_raw_'):
                    v = s.get('value', {})
                    b, w = v.get('binary'), v.get('width', 0)
                    if b is None:
                        continue
                    b = b.zfill(w)
                    vals.append([int(b[i:i + 8], 2) for i in range(w - 8, -1, -8)])
            loc = r.get('sourceLocation', {})
            out.append({'property': r['property'], 'description': strip_id(desc),
                        'where': '%s:%s' % (loc.get('file', '?'), loc.get('line', '?')), 'values': vals})
    return out


NATIVE = {}


def native(kind):
    """Command prefix that runs the replay binary."""
    if kind in NATIVE:
        return NATIVE[kind]
    td = os.path.join(BUILD, 'native')
    if kind == 'miri':
        NATIVE[kind] = ['cargo', '+nightly', 'miri', 'run', '-q', '--target-dir', os.path.join(BUILD, 'miri'), '--bin', 'replay', '--']
        return NATIVE[kind]
    cmd = ['cargo', '+stable', 'build', '-q', '--bin', 'replay', '--target-dir', td] + (['--release'] if kind == 'release' else [])
    rc, o = run(cmd, left(), cwd=HARNESS, env=env())
    if rc != 0:
        die('native build failed: ' + o[-400:])
    NATIVE[kind] = [os.path.join(td, 'release' if kind == 'release' else 'debug', 'replay')]
    return NATIVE[kind]


def reproduce(hid, path, memory):
    """Runs the values natively; returns how it failed, or None."""
    for kind in ('dev', 'release') + (('miri',) if memory else ()):
        e = env(RUST_BACKTRACE='0', MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks')
        rc, o = run(native(kind) + [hid, path], min(left(), 30 if kind != 'miri' else 120), cwd=HARNESS, env=e)
        if rc == 'timeout':
            if kind == 'miri':
                continue
            return kind, 'does not terminate (30 s)'
        if rc == 3:
            continue
        if rc != 0:
            lines = [l for l in o.splitlines() if 'panicked at' in l or 'Undefined Behavior' in l]
            msg = ' '.join(o.strip().splitlines()[-4:])
            m = re.search(r"panicked at [^\n]*\n([^\n]*)", o)
            if m:
                msg = m.group(1)
            elif lines:
                msg = lines[0]
            return kind, 'exit %s: %s' % (rc, msg[:300])
    return None


def triage(prop, mod, name, r, target, unwind):
    """A failing harness: reproduce one of its counterexamples natively."""
    side = sidecars(target).get(name)
    if not side:
        die('%s failed, and its goto binary is gone' % name)
    ws = witness(side[0], side[1], unwind, failed(r))
    if not ws:
        die('%s failed without a counterexample: %s' % (name, '; '.join(c['description'] for c in failed(r))[:300]))
    ws.sort(key=lambda w: ('unwind' in w['property'], 'vharness' not in w['property'] and w['where'].startswith('src/')))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    tried = []
    for w in ws[:6]:
        path = os.path.join(rdir, '%s-%s.vals' % (prop, name))
        with open(path, 'w') as f:
            f.write('# harness %s::%s\n# fails: %s (%s at %s)\n# replay: see /verif/DESIGN.md, "Replaying"\n' %
                    (mod, name, w['description'], w['property'], w['where']))
            for v in w['values']:
                f.write(' '.join(map(str, v)) + '\n')
        got = reproduce('%s::%s' % (mod, name), path, True)
        if got:
            with open(path, 'a') as f:
                f.write('# reproduced (%s): %s\n' % got)
            return path, w, got
        tried.append(w['description'])
    return None, tried, None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = prop.lower()
    meta = META[prop]
    names = declared(mod)
    known = {}
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        for e in json.load(f)['findings']:
            if e['property'] == prop:
                known[e['harness'].split('::')[-1]] = e
    todo = [n for n in names if n.startswith('q_') or n.startswith('k_') or (tier == 'thorough' and n.startswith('t_'))]
    target = os.path.join(BUILD, 'kani')
    for d in glob.glob(os.path.join(target, 'kani', '*', 'debug', 'build', 'vharness')) + glob.glob(os.path.join(target, 'kani', '*', 'debug', '.fingerprint', 'vharness-*')):
        shutil.rmtree(d, ignore_errors=True)
    jobs = meta.get('jobs', 8)
    per = meta.get('timeout', 600)
    res = kani(mod, todo, target, jobs, per)
    missing = [n for n in todo if n not in res]
    if missing:
        die('no result for ' + ', '.join(missing))

    used = {}
    for attempt in (1, 2):
        again = [n for n in todo if res[n]['status'] != 'Success' and failed(res[n]) and all(is_unwind(c) for c in failed(res[n]))]
        for n in again:
            src = open(os.path.join(HARNESS, 'src', mod + '.rs')).read()
            u = used.get(n) or int(re.search(r'\[(\d+)\] fn %s\(\)' % n, src).group(1))
            used[n] = u * 2
            print('NOTE', n, 'needs more than', u, 'loop iterations; retrying with', u * 2)
            t2 = os.path.join(BUILD, 'kani-unwind')
            shutil.rmtree(t2, ignore_errors=True)
            r2 = kani(mod, [n], t2, 1, min(per, int(max(1, left()))), unwind=used[n])
            if n in r2:
                r2[n]['target'] = t2
                if r2[n]['status'] != 'Success' and not failed(r2[n]):
                    # the deeper unrolling did not finish: triage the first run's counterexample
                    used[n] = u
                    continue
                res[n] = r2[n]

    violations, errors, found = [], [], []
    for n in todo:
        r = res[n]
        if r['status'] == 'Success':
            bad = cover_problem(r)
            open_ = [c['description'] for c in r['checks'] if c['status'].upper() in ('UNKNOWN', 'UNDETERMINED', 'ERROR')]
            if open_:
                errors.append('%s: no verdict on "%s"' % (n, open_[0]))
            if bad:
                errors.append('%s is vacuous: unreachable "%s"' % (n, bad[0]))
            if n in known:
                print('NOTE the known finding of', n, 'does not occur any more')
            continue
        if n in known:
            fs = [c['description'] for c in failed(r)]
            if fs and all(known[n]['fails'] in d for d in fs):
                found.append(n)
                print('KNOWN-FINDING: property=%s %s' % (prop, known[n]['what']))
                continue
        if not failed(r):
            errors.append('%s: no answer (%s)' % (n, 'out of time or memory'))
            continue
        if violations:
            violations.append((n, None, '; '.join(c['description'] for c in failed(r))[:200]))
            continue
        path, w, got = triage(prop, mod, n, r, r.get('target', target), used.get(n))
        if path:
            print('%s::%s: %s at %s; reproduced natively (%s): %s' % (mod, n, w['description'], w['where'], got[0], got[1]))
            violations.append((n, path, w['description']))
        else:
            errors.append('%s: counterexample does not reproduce natively: %s' % (n, '; '.join(w)))

    funs, total_checks, ok_checks, vccs, symex, solver, covers = set(), 0, 0, 0, 0.0, 0.0, 0
    sc = sidecars(target)
    per_h = []
    for n in todo:
        r = res[n]
        s = r['stats']
        spent = s.get('runtime_decision_procedure_s')
        if n in sc:
            with open(sc[n][1]) as f:
                side = json.load(f)
                spent = side.get('solver_s', spent)
                for a in side['functions']:
                    funs.add('%s (%s:%s)' % (a[0], a[1].replace('/repo/', ''), a[2]))
        su = [c for c in r['checks'] if c['status'].upper() == 'SUCCESS']
        cv = [c for c in r['checks'] if c['status'].upper() == 'SATISFIED']
        covers += len(cv)
        total_checks += len([c for c in r['checks'] if c['status'].upper() in ('SUCCESS', 'FAILURE', 'FAILED')])
        ok_checks += len(su)
        vccs += s.get('vccs_remaining') or 0
        symex += s.get('runtime_symex_s') or 0
        solver += spent or 0
        per_h.append({'harness': '%s::%s' % (mod, n), 'status': r['status'], 'wall_ms': r['duration_ms'],
                      'program_steps': s.get('size_program_expression'), 'vccs_generated': s.get('vccs_generated'),
                      'vccs_to_solver': s.get('vccs_remaining'), 'solver_s': spent})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic model checking (Kani 0.68 / CBMC 6.11, CaDiCaL) of the real code, compiled from /repo on this run: '
                           'every value of the symbolic inputs within the bounds is decided by the solver; unwinding assertions are on.',
            'bounds': meta['bounds'],
            'outside': meta.get('outside', ''),
            'harnesses': per_h,
            'checks_proved': ok_checks, 'checks_total': total_checks,
            'reachability_witnesses_satisfied': covers,
            'queries_vccs_discharged': vccs, 'symex_s': round(symex, 2), 'solver_s': round(solver, 2),
            'functions_encoded_count': len(funs), 'functions_encoded': sorted(funs),
            'known_findings_seen': found, 'errors': errors,
            'samples': [h for h in per_h[:3]],
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d checks proved, %d VCCs, %.1f s symex, %.1f s solver, %.0f s wall' %
          (prop, tier, len(todo), ok_checks, vccs, symex, solver, time.time() - T0))
    if violations:
        for n, p, d in violations:
            print('FAILED %s::%s %s' % (mod, n, d))
        print('VIOLATION property=%s replay=%s' % (prop, next(p for _, p, _ in violations if p)))
        sys.exit(1)
    if errors:
        for e in errors:
            print('ERROR', e)
        sys.exit(2)


if __name__ == '__main__':
    main()
