#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: build seeded/<id>/ from edit specs (SEEDS list) in a scratch copy, validate, keep.

Steps per seed: apply the edits to a scratch copy, derive patch.diff, run the demo without and with the patch,
run the repository's build and stable tests with the patch, run the property's check against the copy."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
packed_simd = { path = "$repo", features = ["into_bits"] }
[workspace]
EOT
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
export CARGO_TARGET_DIR="$t/target"
export CARGO_INCREMENTAL=0
export RUSTFLAGS="%s"
cd "$t" && cargo build --offline %s > "$t/log" 2>&1 || { tail -30 "$t/log"; exit 2; }
exec_bin="$t/target/%s/demo"
"$exec_bin"
rc=$?
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if not os.path.isdir(W):
        sh('cp -a /repo %s' % W)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W))
    for f in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', W).replace('/opt/vp/logs', W + '-logs')
        open('/tmp/seed-' + f, 'w').write(s)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for sd in ns['SEEDS']:
        i = sd['id']
        if want and i not in want:
            continue
        d = os.path.join(ROOT, 'seeded', i)
        sh('git -C %s checkout -q -- .' % W)
        for f, old, new in sd['edits']:
            p = os.path.join(W, f)
            s = open(p).read()
            n = sd.get('nth', {}).get(f)
            if old not in s:
                print(i, 'EDIT NOT FOUND', f, old[:60]); break
            if s.count(old) > 1 and not sd.get('all'):
                print(i, 'AMBIGUOUS', f, s.count(old), old[:60]); break
            open(p, 'w').write(s.replace(old, new))
        else:
            patch = sh('git -C %s diff' % W).stdout
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(patch)
            rel = sd.get('release', True)
            open(d + '/demo.sh', 'w').write(DEMO % (sd.get('flags', ''), '--release' if rel else '', 'release' if rel else 'debug'))
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/main.rs', 'w').write(sd['main'])
            json.dump(dict(property=sd['property'], needs=sd['needs'], what_it_breaks=sd['breaks']), open(d + '/meta.json', 'w'), indent=1)
            r1 = sh('bash %s/demo.sh' % d, cwd=W)
            b = sh('bash /tmp/seed-build.sh')
            if b.returncode:
                print(i, 'BUILD FAILS', b.stdout[-1500:]); shutil.rmtree(d); continue
            t = sh('bash /tmp/seed-test.sh /tmp/seed-out.json')
            o = json.load(open('/tmp/seed-out.json'))
            failing = sorted(stable - set(o['passed']))
            sh('git -C %s checkout -q -- .' % W)
            r0 = sh('bash %s/demo.sh' % d, cwd=W)
            ok = r0.returncode == 0 and r1.returncode not in (0, 2) and not failing
            sh('git -C %s apply %s/patch.diff' % (W, d))
            c = sh('VP_REPO=%s python3 %s/engine/check.py %s quick' % (W, ROOT, sd['property']))
            sh('git -C %s checkout -q -- .' % W)
            print(i, 'demo clean', r0.returncode, 'patched', r1.returncode, 'tests failing', len(failing), failing[:3],
                  'KEPT' if ok else 'DROPPED', '| check exit', c.returncode, 'CAUGHT' if 'VIOLATION property=' + sd['property'] in c.stdout else 'MISSED', flush=True)
            if 'VIOLATION' not in c.stdout:
                print(c.stdout[-800:])
            if not ok:
                print(r0.stdout[-500:], '---', r1.stdout[-500:])
                shutil.rmtree(d)


main()
