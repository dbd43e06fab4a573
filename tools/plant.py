#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and writes them to seeded/<id>/.
usage: plant.py SPEC.py [id…]   SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)…], main=rust source)]
Confirmed: the demo exits 0 on the unchanged tree and nonzero with the patch, the patched tree builds and passes the stable tests."""
import json, os, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant'
R = W + '/repo'
DEMO = r'''#!/bin/bash
# cwd: the repository. Builds a scratch crate against it and runs main.rs.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
export PATH="/root/.cargo/bin:$PATH"
mkdir -p /tmp/curvo-demo-@ID@/src || exit 2
cp "$here/main.rs" /tmp/curvo-demo-@ID@/src/main.rs
cp "$repo/Cargo.lock" /tmp/curvo-demo-@ID@/Cargo.lock
cat > /tmp/curvo-demo-@ID@/Cargo.toml <<END
[package]
name = "curvo-demo"
version = "0.1.0"
edition = "2021"
[dependencies]
curvo = { path = "$repo", features = ["serde"] }
nalgebra = "0.33.2"
anyhow = "1"
serde_json = "1"
[workspace]
END
cd /tmp/curvo-demo-@ID@ || exit 2
CARGO_TARGET_DIR=${DEMO_TARGET:-/tmp/curvo-demo-@ID@/target} timeout 280 cargo run --offline -q
rc=$?
cd /
rm -rf /tmp/curvo-demo-@ID@
exit $rc
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def sync():
    os.makedirs(R, exist_ok=True)
    sh("rsync -a --checksum --no-times --delete --exclude target /repo/ %s/" % R)
def tests():
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=W + '/ttarget', CARGO_PROFILE_DEV_DEBUG='0')
    r = sh('cargo test --workspace --features serde,log --no-fail-fast --offline -- --test-threads 8 2>&1', cwd=R, env=env)
    return r
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    for b in bugs:
        if only and b['id'] not in only: continue
        d = '%s/seeded/%s' % (ROOT, b['id'])
        sync()
        os.makedirs(d, exist_ok=True)
        open(d + '/main.rs', 'w').write(b['main'])
        open(d + '/demo.sh', 'w').write(DEMO.replace('@ID@', b['id']))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, DEMO_TARGET=W + '/dtarget')
        r0 = sh('bash %s/demo.sh' % d, cwd=R, env=env)
        bad = None
        if r0.returncode: bad = 'demo fails on the unchanged tree: ' + (r0.stdout + r0.stderr)[-1500:]
        for f, old, new in b['edits']:
            s = open(R + '/' + f).read()
            if s.count(old) != 1: bad = '%s: %d matches of %r' % (f, s.count(old), old[:50]); break
            open(R + '/' + f, 'w').write(s.replace(old, new))
        if not bad:
            open(d + '/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
            t = tests()
            import re
            failed = re.findall(r'^test (.+) \.\.\. FAILED', t.stdout, re.M)
            if t.returncode and 'could not compile' in t.stdout: bad = 'does not build ' + t.stdout[-1500:]
            elif failed: bad = 'tests fail: %s' % failed
            else:
                r1 = sh('bash %s/demo.sh' % d, cwd=R, env=env)
                if r1.returncode == 0: bad = 'demo passes with the patch'
                else: msg = (r1.stdout + r1.stderr).strip()[-300:]
        if bad:
            print('BAD ', b['id'], bad); sh('rm -rf %s' % d)
        else: print('ok  ', b['id'], msg.replace('\n', ' | '))
        sys.stdout.flush()
main()
