"""Builds the harness crate against /repo's current tree: LLVM IR for the executor and a
cdylib for native replay (one compilation serves both)."""
import glob
import os
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
REPO = '/repo'


class BuildError(Exception):
    pass


def build(features, small=False, fresh=True):
    feats = ','.join(sorted(features))
    tag = feats.replace('g_', '').replace(',', '-') + ('-small' if small else '')
    tgt = os.path.join(ROOT, 'build', tag)
    if fresh and os.path.isdir(tgt):
        shutil.rmtree(tgt)
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true')
    env['RUSTFLAGS'] = ' '.join([
        '--emit=llvm-ir,link', '-Cpanic=abort', '-Cdebug-assertions=on', '-Coverflow-checks=on',
        '-Copt-level=1', '-Ccodegen-units=1', '-Cno-vectorize-loops', '-Cno-vectorize-slp', '-Cdebuginfo=0',
        '-Zshare-generics=n', '-Cllvm-args=-unroll-runtime=false', '-Cllvm-args=-unroll-allow-partial=false',
        '--cap-lints=allow'] + (['--cfg', 'babs_verif'] if small else []))
    env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    t0 = time.time()
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--features', feats], cwd=os.path.join(ROOT, 'harness'),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    deps = os.path.join(tgt, 'debug', 'deps')

    def newest(pat):
        fs = sorted(glob.glob(os.path.join(deps, pat)), key=os.path.getmtime)
        if not fs:
            raise BuildError('no ' + pat)
        return fs[-1]
    lls = [newest('babs_harness*.ll')] + [newest(p) for p in ('babs-*.ll', 'num_traits-*.ll')]
    so = os.path.join(tgt, 'debug', 'libbabs_harness.so')
    return dict(lls=lls, so=so, seconds=time.time() - t0, target=tgt)


def discard(b):
    shutil.rmtree(b['target'], ignore_errors=True)
