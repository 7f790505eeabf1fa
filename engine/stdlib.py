"""LLVM IR of the standard library, as embedded (section .llvmbc) in the rlibs that the
harness is linked against."""
import glob
import os
import re
import shutil
import subprocess
import build
import llparse

CRATES = ('core', 'alloc', 'std')


def sysroot():
    p = os.path.expanduser('~/.rustup/toolchains/' + build.TOOLCHAIN)
    if not os.path.isdir(p):
        p = subprocess.run(['rustc', '+' + build.TOOLCHAIN, '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
    return p


def extract(crate, out):
    base = os.path.join(sysroot(), 'lib/rustlib/x86_64-unknown-linux-gnu')
    tool = lambda n: os.path.join(base, 'bin', n)
    rlib = glob.glob(os.path.join(base, 'lib', 'lib%s-*.rlib' % crate))[0]
    os.makedirs(out, exist_ok=True)
    names = subprocess.run([tool('llvm-ar'), 't', rlib], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    lls = []
    for n in names:
        if not n.endswith('.o') or not n.startswith(crate + '-'):
            continue
        o = os.path.join(out, n)
        with open(o, 'wb') as f:
            subprocess.run([tool('llvm-ar'), 'p', rlib, n], stdout=f, check=True)
        subprocess.run([tool('llvm-objcopy'), '--dump-section', '.llvmbc=%s.bc' % o, o, '/dev/null'], check=True)
        subprocess.run([tool('llvm-dis'), o + '.bc', '-o', o + '.ll'], check=True)
        lls.append(o + '.ll')
    return lls


def attach(prog, crates=('core', 'alloc')):
    out = os.path.join(build.ROOT, 'build', 'std-%d' % os.getpid())
    try:
        for c in crates:
            for f in extract(c, out):
                txt = open(f).read()
                txt = re.sub(r'^ +#dbg_.*\n', '', txt, flags=re.M)
                txt = re.sub(r',? !(dbg|guid|prof|srcloc|noundef|range|noalias|alias\.scope|annotation) !\d+', '', txt)
                prog.add(llparse.Module(txt, c + '.ll'))
    finally:
        shutil.rmtree(out, ignore_errors=True)
