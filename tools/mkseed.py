#!/usr/bin/env python3
"""Developer tool: builds seeded/<id>/ from tools/seeds.py and confirms each in a scratch copy of /repo
(patch applies, builds, the 55 stable tests pass, demo passes without and fails with the patch)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from seeds import SEEDS
DEMO = r'''#!/bin/bash
# builds a small program against the tree in the current directory and runs it
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && cp "$D"/*.xsd "$T/" 2>/dev/null
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
xsd = { path = "$R/xsd" }
rust_decimal = { version = "1.6", default-features = false, features = ["std"] }
proc-macro2 = "1.0"
[profile.dev]
debug = 0
TOML
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q
'''
W = '/tmp/seedw'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    only = sys.argv[1:]
    if not os.path.isdir(W): sh('cp -a /repo %s' % W)
    sh('cd %s && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD' % W)
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in SEEDS:
        if only and s['id'] not in only: continue
        d = V + '/seeded/' + s['id']
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        sh('cd %s && git checkout -qf -- .' % W)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.rs', 'w').write(s['main'])
        for n, x in s.get('files', {}).items(): open(d + '/' + n, 'w').write(x)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        a = sh('cd %s && bash %s/demo.sh' % (W, d))
        for f, old, new in s['edits']:
            p = W + '/' + f; t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('cd %s && git diff' % W).stdout
        open(d + '/patch.diff', 'w').write(diff)
        b = sh('cd %s && bash %s/demo.sh' % (W, d))
        t = sh('cd %s && cargo test --offline --workspace --no-fail-fast 2>&1 | grep -E "^test .* (ok|FAILED)$|^error" ' % W)
        ok = sum(l.endswith(' ok') for l in t.stdout.splitlines()); bad = [l for l in t.stdout.splitlines() if not l.endswith(' ok')]
        good = a.returncode == 0 and b.returncode != 0 and 'panicked' in b.stderr and not bad
        print(s['id'], s['prop'], 'OK' if good else 'BAD', 'demo', a.returncode, b.returncode, 'tests', ok, bad[:3], flush=True)
        if not good: print(a.stderr[-1500:]); print('--- patched'); print(b.stderr[-1500:])
        elif only: print(b.stderr[-400:])
    sh('cd %s && git checkout -qf -- .' % W)
main()
