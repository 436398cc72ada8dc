#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property in META, the rest not_applicable."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from meta import META, NOT_APPLICABLE  # noqa: E402
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if ' verification hooks' in l]
m = {
    'version': 1,
    'setup_cmd': 'bin/setup.sh',
    'hooks': {'guard': 'cfg(parcom_verif)', 'enable': 'RUSTFLAGS="--cfg parcom_verif"', 'source_commits': hooks},
    'checks': [{
        'property': p,
        'quick_cmd': 'bin/check.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough bin/check.py ' + p,
        'technique': 'bounded symbolic model checking of the compiled code (Kani/CBMC, SAT), counterexamples replayed natively',
        'level': 'other',
        'level_note': 'Solver verdict over every value within: ' + META[p]['bounds'] + ' Outside: ' + META[p].get('outside', '-') +
                      '. Trusts Kani/CBMC, rustc, and the coroutine union-to-struct rewrite (DESIGN.md); assumes: ' +
                      ('; '.join(META[p].get('assumptions', [])) or 'nothing further') + '.',
    } for p in ids if p in META],
    'not_applicable': [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check built yet')} for p in ids if p not in META],
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
