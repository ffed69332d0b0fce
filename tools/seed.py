#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py -- the spec defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new[, nth])],
DEPS (Cargo lines), MAIN (main.rs). Writes seeded/<ID>/ after confirming, in a scratch copy of /repo,
that the change builds, passes the stable tests, and that the demonstration separates the trees.
Then runs the property's quick check against /repo with the patch applied (and undoes it)."""
import subprocess, sys, os, json, shutil, runpy, re
SC = '/tmp/seedrepo'
def sh(c, cwd=None, env=None, timeout=1800):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout)
    return r.returncode, r.stdout
def scratch():
    if not os.path.isdir(SC):
        sh('cp -a /repo ' + SC)
    head = sh('git rev-parse HEAD', '/repo')[1].strip()
    sh(f'git checkout -q -- . && git fetch -q /repo && git checkout -q {head}', SC)
DEMO = '''#!/bin/bash
# builds a small program against the crates of the current tree and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
rm -rf /tmp/mcdemo-@ID@
mkdir -p /tmp/mcdemo-@ID@/src
trap 'rm -rf /tmp/mcdemo-@ID@' EXIT
cp "$here"/*.rs /tmp/mcdemo-@ID@/src/
cp "$repo/Cargo.lock" /tmp/mcdemo-@ID@/
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > /tmp/mcdemo-@ID@/Cargo.toml
cd /tmp/mcdemo-@ID@
export CARGO_TARGET_DIR=/tmp/mcdemo-@ID@/target CARGO_NET_OFFLINE=true
cargo build -q --offline 2> build.log || { cat build.log; exit 3; }
timeout 240 ./target/debug/demo
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
@DEPS@

[profile.dev]
opt-level = 1
debug = false
'''
def apply(edits, root):
    for m in edits:
        f, old, new = m[:3]; nth = m[3] if len(m) > 3 else 0
        p = f'{root}/{f}'; s = open(p).read(); i = -1
        for _ in range(nth + 1): i = s.find(old, i + 1)
        if i < 0: sys.exit(f'not found in {f}: {old[:80]}')
        open(p, 'w').write(s[:i] + new + s[i + len(old):])
def main(spec, skip_tests=False):
    d = runpy.run_path(spec)
    out = f"/verif/seeded/{d['ID']}"
    os.makedirs(out, exist_ok=True)
    scratch()
    open(out + '/demo.sh', 'w').write(DEMO.replace('@ID@', d['ID'])); os.chmod(out + '/demo.sh', 0o755)
    open(out + '/Cargo.toml.in', 'w').write(TOML.replace('@DEPS@', d['DEPS'].strip()))
    open(out + '/main.rs', 'w').write(d['MAIN'].lstrip())
    for k, v in d.get('FILES', {}).items(): open(out + '/' + k, 'w').write(v)
    json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    rc, o = sh(f'bash {out}/demo.sh', SC)
    print('clean demo', rc, o[-600:] if rc else '')
    if rc: return
    apply(d['EDITS'], SC)
    open(out + '/patch.diff', 'w').write(sh('git diff', SC)[1])
    rc, o = sh(f'bash {out}/demo.sh', SC)
    print('patched demo', rc, o[-300:])
    if rc in (0, 3): return
    if not skip_tests:
        rc, o = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 && cargo check --workspace --offline', SC)
        n = sum(int(x) for x in re.findall(r'(\d+) passed', o)); f = sum(int(x) for x in re.findall(r'(\d+) failed', o))
        print('tests rc', rc, n, 'passed', f, 'failed')
        if rc: print(o[-1500:]); return
    assert not sh('git status --porcelain', '/repo')[1].strip(), '/repo dirty'
    try:
        print(sh(f'git apply {out}/patch.diff', '/repo'))
        rc, o = sh(f"/verif/check.sh {d['PROP']} quick", '/verif')
        print('CHECK', d['PROP'], rc, [l for l in o.splitlines() if 'VIOLATION' in l or 'violated' in l][:3], o[-300:] if rc not in (0,1) else '')
    finally:
        sh('git checkout -- .', '/repo'); sh('git checkout -q -- .', SC)
if __name__ == '__main__':
    for a in sys.argv[1:]:
        if a != '-n': print('==', a); main(a, '-n' in sys.argv)
