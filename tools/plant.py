#!/usr/bin/env python3
"""Plant a bug: plant.py SPECFILE [ids...].  The spec is a python file defining BUGS, a list of
dicts(id, prop, edits=[(file, old, new[, nth])], demo=rust main body, needs, breaks).  Each one is
tried in a scratch copy of /repo (build, stable tests, demo on both trees) and kept under
/verif/seeded only when all of that holds."""
import json, os, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'
DEMO = r'''#!/bin/sh
# exit 0 when the program in main.rs runs to completion against /repo (the current directory)
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
babs = { path = "$repo" }
num-traits = "*"
[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q 2>"$t/err"
r=$?
[ $r = 0 ] || tail -5 "$t/err"
exit $r
'''
HEAD = '''#![allow(unused_imports, dead_code)]
use babs::{BinaryDigit as B, DecimalDigit as D, UBig};
use num_traits::{One, Pow, Zero};
fn b8(d: &[u8]) -> UBig<B<u8>> { UBig::new(d.iter().map(|&x| B(x)).collect()) }
fn b16(d: &[u16]) -> UBig<B<u16>> { UBig::new(d.iter().map(|&x| B(x)).collect()) }
fn b32(d: &[u32]) -> UBig<B<u32>> { UBig::new(d.iter().map(|&x| B(x)).collect()) }
fn b64(d: &[u64]) -> UBig<B<u64>> { UBig::new(d.iter().map(|&x| B(x)).collect()) }
fn d8(d: &[u8]) -> UBig<D<u8>> { UBig::new(d.iter().map(|&x| D(x)).collect()) }
fn d16(d: &[u16]) -> UBig<D<u16>> { UBig::new(d.iter().map(|&x| D(x)).collect()) }
fn d32(d: &[u32]) -> UBig<D<u32>> { UBig::new(d.iter().map(|&x| D(x)).collect()) }
fn d64(d: &[u64]) -> UBig<D<u64>> { UBig::new(d.iter().map(|&x| D(x)).collect()) }
fn main() {
'''


def sh(cmd, cwd, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        d = os.path.join(SEED, b['id'])
        if os.path.exists(d) and not want:
            continue
        sc = tempfile.mkdtemp(prefix='plant')
        try:
            sh('cp -a /repo %s/repo' % sc, '/')
            rp = sc + '/repo'
            sh('git checkout -q -- . ', rp)
            bad = None
            for e in b['edits']:
                p = os.path.join(rp, e[0])
                s = open(p).read()
                n = s.count(e[1])
                nth = e[3] if len(e) > 3 else None
                if n == 0 or n > 1 and nth is None:
                    bad = 'edit text occurs %d times in %s: %s' % (n, e[0], e[1][:60])
                    break
                if nth is None:
                    s = s.replace(e[1], e[2])
                else:
                    parts = s.split(e[1])
                    s = e[1].join(parts[:nth + 1]) + e[2] + e[1].join(parts[nth + 1:])
                open(p, 'w').write(s)
            if bad:
                print(b['id'], 'SKIP', bad)
                continue
            patch = sh('git diff', rp).stdout
            out = tempfile.mkdtemp(prefix='plantd')
            open(out + '/main.rs', 'w').write(HEAD + b['demo'] + '\n}\n')
            open(out + '/demo.sh', 'w').write(DEMO)
            os.chmod(out + '/demo.sh', 0o755)
            r0 = sh('sh %s/demo.sh' % out, '/repo')
            r1 = sh('sh %s/demo.sh' % out, rp)
            # stable tests in the patched copy
            r = sh('CARGO_TARGET_DIR=%s/tgt cargo test --offline 2>&1' % sc, rp)
            tests_ok = r.returncode == 0
            ok = r0.returncode == 0 and r1.returncode != 0 and tests_ok
            print(b['id'], 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'tests', tests_ok)
            if not ok:
                print('   ', (r0.stdout + r0.stderr)[-300:] if r0.returncode else '', '|', r1.stdout[-200:], '|',
                      '' if tests_ok else [l for l in r.stdout.split('\n') if 'FAILED' in l or 'error' in l][:4])
            if ok:
                os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'w').write(patch)
                shutil.copy(out + '/main.rs', d)
                shutil.copy(out + '/demo.sh', d)
                json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            shutil.rmtree(out)
        finally:
            shutil.rmtree(sc)


main()
