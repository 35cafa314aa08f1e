"""Compile /repo's current sources to LLVM IR in a private scratch directory."""
import os, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FRV_REPO', '/repo')
DEFS = ['-DMAX_HTTP_HEADER_SIZE=0xC800', '-DMAX_HTTP_BODY_SIZE=0xA00000', '-DLISTEN_QUEUE_SIZE=64', '-DUSE_SSL']
class BuildError(Exception): pass
def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-3000:])
    return r
def ir(dst):
    """all.ll in dst, from a copy of the current tree"""
    for d in ('src', 'include'): shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d))
    srcs = sorted(glob.glob(os.path.join(dst, 'src', '*.cpp'))) + [os.path.join(HERE, 'inst.cpp')]
    fl = ['-std=c++14', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-fno-discard-value-names', '-w'] + DEFS + ['-I', 'include', '-S', '-emit-llvm']
    lls = []
    def one(f):
        o = os.path.basename(f)[:-4] + '.ll'
        run(['/usr/bin/clang++-18'] + fl + [f, '-o', o], dst); return o
    with ThreadPoolExecutor(8) as p: lls = list(p.map(one, srcs))
    run(['/usr/bin/llvm-link-18', '-S'] + lls + ['-o', 'all.ll'], dst)
    return os.path.join(dst, 'all.ll')
