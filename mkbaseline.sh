#!/bin/bash
# development: records the functions and literals of /repo's HEAD that the contracts were written for
cd "$(dirname "$0")" || exit 1
(cd extract && cargo build --release --offline -q) || exit 1
mkdir -p work/base
extract/target/release/vx-extract /repo/src contracts work/base --write-baseline baseline.json || exit 1
python3 - <<'P'
import re,json,sys
src=open('check.py').read()
ns={'__file__':'check.py'}
exec(src.split("# ---------------------------------------------------------------- main")[0], ns)
json.dump({str(k): v for k, v in sorted(ns['literals']('/repo/src').items())}, open('literals.json','w'))
P
