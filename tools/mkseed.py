#!/usr/bin/env python3
"""mkseed.py [NAME...]: (re)creates seeded/NAME from tools/seeds/NAME.seed in a scratch copy of /repo, and confirms it.

A seed file: header lines "property:", "needs:", "breaks:", and optionally
"use:" (files of tools/seeds put before the demonstration) and "hooks: yes" (built with the guard on); then blocks
  @@ FILE / old text / == / new text   (repeatable)
and, after a line "%% demo", the body of the demonstration (Rust; tools/seeds/prelude.rs is put in front).
Confirmed: the patch builds, the stable tests pass with it, the demonstration passes without and fails with it.
"""
import glob
import json
import os
import re
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
W = '/tmp/seedw'
CR = 'parcom-core parcom-internals parcom-metrics parcom-parsers parcom-runner-core parcom-runners parcom-sequence-core parcom-sequence-sources parcom-sequences parcom-util'.split()
DEMO = '''#!/bin/bash
# exit 0: the property held; otherwise the demonstration failed. Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; d=/tmp/parcom-demo-%(name)s
rm -rf /tmp/parcom-demo-%(name)s; mkdir -p $d/src; cp "$here/main.rs" $d/src/; cp Cargo.lock $d/ 2>/dev/null
{ printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\n'
for c in %(crates)s; do echo "$c = { path = \\"$repo/crates/$c\\" }"; done; } > $d/Cargo.toml
%(flags)s
cd $d && CARGO_TARGET_DIR=$d/target timeout 200 cargo run --offline -q; rc=$?
cd /; rm -rf /tmp/parcom-demo-%(name)s; exit $rc
'''


def sh(cmd, cwd=W, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def parse(path):
    head, edits, demo, mode, cur = {}, [], [], 'head', None
    for l in open(path):
        if l.startswith('%% demo'):
            mode = 'demo'
        elif mode == 'demo':
            demo.append(l)
        elif l.startswith('@@ '):
            cur = [l[3:].strip(), '', '']
            edits.append(cur)
            mode = 'old'
        elif mode == 'old' and l.strip() == '==':
            mode = 'new'
        elif mode in ('old', 'new'):
            cur[1 if mode == 'old' else 2] += l
        elif ':' in l:
            k, v = l.split(':', 1)
            head[k.strip()] = v.strip()
    return head, edits, ''.join(demo)


def main():
    names = sys.argv[1:] or sorted(os.path.basename(f)[:-5] for f in glob.glob(V + '/tools/seeds/*.seed'))
    if not os.path.exists(W):
        subprocess.check_call(['cp', '-a', '/repo', W])
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    prelude = open(V + '/tools/seeds/prelude.rs').read()
    bad = 0
    for n in names:
        head, edits, demo = parse('%s/tools/seeds/%s.seed' % (V, n))
        sh('git checkout -q -- .')
        d = V + '/seeded/' + n
        os.makedirs(d, exist_ok=True)
        use = ''.join(open('%s/tools/seeds/%s.rs' % (V, u)).read() for u in head.get('use', '').split())
        open(d + '/main.rs', 'w').write(prelude + use + demo)
        open(d + '/demo.sh', 'w').write(DEMO % {'name': n, 'crates': ' '.join(CR),
                                                 'flags': 'export RUSTFLAGS="-Awarnings%s"' % (' --cfg parcom_verif' if 'hooks' in head else '')})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': head['property'], 'needs': head['needs'], 'what_it_breaks': head['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % d, timeout=300)
        for f, old, new in edits:
            p = '%s/crates/%s' % (W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(n, 'EDIT does not match once (%d): %s' % (s.count(old), f))
                bad += 1
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff')
        open(d + '/patch.diff', 'w').write(diff)
        rcb, ob = sh('timeout 300 cargo nextest run --workspace --offline --no-fail-fast --no-tests=pass 2>&1')
        failed = [l for l in ob.splitlines() if ' FAIL ' in l or l.startswith('error')]
        rc1, o1 = sh('bash %s/demo.sh' % d, timeout=300)
        ok = rc0 == 0 and rcb == 0 and rc1 not in (0, 'timeout') and diff
        rca, _ = sh('git apply --check %s/patch.diff' % d, cwd='/repo')
        print(n, 'ok' if ok and rca == 0 else 'BAD', 'clean=%s tests=%s patched=%s applies=%s' % (rc0, rcb, rc1, rca), ' '.join(re.findall(r'panicked at [^\n]*\n[^\n]*|^error[^\n]*|Undefined[^\n]*', o1, re.M)[:2]).replace('\n', ' ')[:200])
        if not ok:
            bad += 1
            print(o0[-1500:] if rc0 else (failed or o1[-1500:]))
        sh('git checkout -q -- .')
    sys.exit(bad != 0)


main()
