#!/usr/bin/env python3
"""Makes planted bugs from definitions and confirms them in a scratch copy.

    seed.py DEFS.py [ID ...]

DEFS.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)],
demo=main.rs text, features=optional cargo dependency suffix)}. A seed is kept in
/verif/seeded/<id> if it applies, builds, passes the stable tests, and its demo
passes without and fails with the patch. Never touches /repo.
"""
import json, os, runpy, shutil, subprocess, sys
RP = '/tmp/rp'
OUT = '/verif/seeded'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.79.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=RP + '/target')
DEMO = '''#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/Cargo.lock" "$dir/Cargo.lock"
cat >"$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
upon = { path = "$repo"%s }
serde = { version = "1.0.137", features = ["derive"] }
[profile.dev]
debug = false
[workspace]
TOML
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$dir/target
unset RUSTFLAGS
cd "$dir" || exit 2
timeout 250 cargo run --offline -q
'''
def sh(cmd, cwd=RP, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def reset():
    sh('git checkout -q -- . && git clean -fdq')
def edit(edits):
    for f, old, new in edits:
        p = os.path.join(RP, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return f'{f}: old text occurs {n} times: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
def make(sid, d):
    reset()
    err = edit(d['edits'])
    if err: return err
    patch = sh('git diff').stdout
    if not patch.strip(): return 'empty patch'
    tmp = f'/tmp/sd/{sid}'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(patch)
    open(tmp + '/demo.sh', 'w').write(DEMO % d.get('features', ''))
    open(tmp + '/main.rs', 'w').write(d['demo'].strip() + '\n')
    lock = open('/verif/mac/Cargo.lock').read().replace('name = "mac"', 'name = "demo"')
    open(tmp + '/Cargo.lock', 'w').write(lock)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/sd/test.log 2>&1; python3 /opt/vp/results.py /tmp/sd/res.json cargo:/tmp/sd/test.log')
    res = json.load(open('/tmp/sd/res.json')) if os.path.exists('/tmp/sd/res.json') else {'passed': []}
    miss = STABLE - set(res['passed'])
    if miss:
        return f'{len(miss)} stable tests fail: {sorted(miss)[:4]}' + (sh("grep -E '^error' -A8 /tmp/sd/test.log | head -30").stdout if len(miss) > 200 else '')
    r = sh(f'bash {tmp}/demo.sh')
    if r.returncode == 0: return 'demo passes with the patch'
    msg = r.stdout
    if 'error[' in msg or 'could not compile' in msg: return 'demo does not compile:\n' + msg[:1500]
    reset()
    r = sh(f'bash {tmp}/demo.sh')
    if r.returncode != 0: return 'demo fails without the patch:\n' + r.stdout[:1500]
    shutil.rmtree(f'{OUT}/{sid}', ignore_errors=True)
    shutil.copytree(tmp, f'{OUT}/{sid}')
    i = msg.find('panicked at')
    print(f'  demo with patch: {msg[max(i, 0):].strip()[:200]!r}')
def main():
    shutil.rmtree(RP + '/src', ignore_errors=True)
    if not os.path.exists(RP + '/target'):
        shutil.rmtree(RP, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', RP], check=True)
    sh('git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD', cwd=RP)
    reset()
    defs = runpy.run_path(sys.argv[1])['SEEDS']
    for sid, d in defs.items():
        if len(sys.argv) > 2 and sid not in sys.argv[2:]: continue
        if len(sys.argv) == 2 and os.path.exists(f'{OUT}/{sid}'): continue
        try: err = make(sid, d)
        except subprocess.TimeoutExpired: err = 'timeout'
        print(sid, 'OK' if not err else 'REJECTED: ' + err, flush=True)
    reset()
main()
