"""Development aid: makes and confirms planted changes. usage: seedlib.py FILE.py [ID...]
FILE.py defines SEEDS: id -> dict(prop, edits=[(file, old, new[, nth])], demo, needs, breaks)."""
import os, sys, json, subprocess, shutil
SC = '/tmp/seedw'
DEMO = r'''#!/bin/bash
# exit 0 when the library behaves, nonzero otherwise; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" || exit 3
cat > "$t/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
baa = { path = "$repo", features = ["bigint", "serde1", "fraction1"] }
num-bigint = "0.4"
fraction = "0.11"
[profile.dev]
debug = false
C
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$t/Cargo.lock" || exit 3
cd "$t" || exit 3
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER
timeout 250 cargo run --offline -q 2>&1 | tail -20
exit "${PIPESTATUS[0]}"
'''
HEAD = '''#![allow(unused_imports, unused_variables, dead_code)]
use baa::*;
fn v(w: u32, x: &[u64]) -> BitVecValue {
    let mut r = BitVecValue::zero(w);
    r.words_mut().copy_from_slice(x);
    r
}
fn main() {
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENVT = 'export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=0; '
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:] or list(ns['SEEDS'])
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable_pass') or [])
    shutil.rmtree(SC, ignore_errors=True)
    r = sh(f'git clone -q /repo {SC} && cp /opt/vp/Cargo.lock {SC}/Cargo.lock')
    for i in want:
        s = ns['SEEDS'][i]
        sh(f'git -C {SC} checkout -q -- .')
        ok = True
        for e in s['edits']:
            p = f'{SC}/src/{e[0]}'
            t = open(p).read()
            n = t.count(e[1])
            k = e[3] if len(e) > 3 else 0
            if n == 0 or (n > 1 and len(e) < 4): print(i, 'EDIT', n, 'matches', e[0], repr(e[1][:50])); ok = False; break
            pos = -1
            for _ in range(k + 1): pos = t.index(e[1], pos + 1)
            open(p, 'w').write(t[:pos] + e[2] + t[pos + len(e[1]):])
        if not ok: continue
        out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', i)
        tmp = f'/tmp/seedo'
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(sh(f'git -C {SC} diff').stdout)
        open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.rs', 'w').write(s.get('head', HEAD) + s['demo'].strip('\n') + '\n}\n')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        bad = []
        for _ in range(2):
            r = sh(ENVT + f'cd {SC} && cargo test --offline --features bigint,serde1,fraction1 2>&1 | grep -E "^test .*FAILED|^error|test result" ')
            bad += [l for l in r.stdout.split('\n') if 'FAILED' in l or l.startswith('error')]
        d1 = sh(f'bash {tmp}/demo.sh', cwd=SC)
        d0 = sh(f'bash {tmp}/demo.sh', cwd='/repo')
        st = 'ok' if not bad and d1.returncode != 0 and d0.returncode == 0 else 'BAD'
        print(i, s['prop'], st, 'tests:', bad[:3], 'demo patched', d1.returncode, 'plain', d0.returncode, '' if st == 'ok' else (d1.stdout[-300:] + d0.stdout[-600:]))
        sys.stdout.flush()
        if st == 'ok':
            shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
    shutil.rmtree(SC, ignore_errors=True)
main()
