#!/bin/bash
# developer shortcut: k.sh FILTER [kani args]
export KANI_HOME=/verif/.build/kanihome VH_CBMC=$HOME/.kani/kani-0.68.0/bin/cbmc; cd /verif/harness; export CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings --cfg parcom_verif"
f=$1; shift; ulimit -v ${VM:-14000000}
( time timeout 900 cargo kani --target-dir ${KT:-/verif/.build/kani} -j ${J:-8} --output-format terse --harness "$f" -Z unstable-options --no-assertion-reach-checks -Z stubbing --export-json /tmp/out.json "$@" ) > /tmp/out.txt 2>&1
grep -E "^error|Summary|failed for|Complete|real" -A3 /tmp/out.txt | head -60
python3 - <<'PY'
import json,os
try: d=json.load(open('/tmp/out.json'))
except Exception as e: print(e); raise SystemExit
st={c['harness_id']:c.get('cbmc_stats') or {} for c in d['cbmc']}
for r in d['verification_results']['results']:
    h=r['harness_id']; s=st.get(h,{})
    r['checks'].sort(key=lambda c: c['status'].upper() in ('UNDETERMINED',))
    bad=[c for c in r['checks'] if c['status'] not in ('Success','SUCCESS','Unreachable','UNREACHABLE','Satisfied','SATISFIED')]
    print(h,r['status'],r['duration_ms'],'symex',s.get('runtime_symex_s'),'conv',s.get('runtime_convert_ssa_s'),'solve',s.get('runtime_solver_s'),'steps',s.get('size_program_expression'),'vcc',s.get('vccs_remaining'))
    for c in bad[:8]: print('    ',c['status'],c['description'][:90],c['location'].get('file','')[-40:] if isinstance(c['location'],dict) else c['location'],c['location'].get('line') if isinstance(c['location'],dict) else '')
PY
