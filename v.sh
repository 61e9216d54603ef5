#!/bin/bash
# development aid: v.sh [-m MODULE] [verus args]
cd "$(dirname "$0")"; V=$PWD; a=()
while [ "$1" = -m ]; do a+=(--verify-module $2); shift 2; done
$V/extract/target/release/vx-extract /repo/src $V/contracts /tmp/vxo || exit 1
python3 - <<'P'
import json
j=json.load(open('/tmp/vxo/map.json'))
for f in j['functions']:
    if f['status'] not in('contract','trait_sig','plain') or f['lost'] or f['inline_failed']: print(f['id'],f['status'],f['reason'],f['lost'],f['inline_failed'])
if j['missing']: print('missing',j['missing'][:5])
P
timeout 800 verus /tmp/vxo/lib.rs --triggers-mode silent --num-threads 8 "${a[@]}" "$@" 2>&1 | python3 $V/vs.py
