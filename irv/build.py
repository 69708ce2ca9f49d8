"""Compile a contract file against /repo's current headers to textual LLVM IR."""
import os, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = ['clang++-18', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize',
       '-fno-access-control', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-U_FORTIFY_SOURCE', '-gline-tables-only', '-w',
       '-fno-strict-aliasing', '-fno-pic', '-mcmodel=large']
OPT = ['opt-18', '-S', '-passes=function(sroa,early-cse,simplifycfg),globaldce']


class BuildError(Exception):
    pass


def includes(src):
    """contract headers in front of the real ones; the first line of a contract file selects them (real:core, inc=dir)"""
    import re
    t = open(src).read(200)
    m = re.search(r'inc=(\w+)', t)
    if 'real:' not in t: return (['-I', os.path.join(HERE, 'shadow', m.group(1))] if m else []) + ['-I', os.path.join(HERE, 'shadow')]
    return (['-I', os.path.join(HERE, 'shadow', m.group(1))] if m else []) + ['-I', os.path.join(HERE, 'shadow/base')]


def compile_ir(src, outdir, defs=(), shadow=True, extra=()):
    base = os.path.splitext(os.path.basename(src))[0]
    bc = os.path.join(outdir, base + '.bc'); ll = os.path.join(outdir, base + '.ll')
    inc = includes(src)
    cmd = CXX + list(extra) + ['-D' + d for d in defs] + inc + ['-I', REPO, '-emit-llvm', '-c', src, '-o', bc]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-6000:])
    r = subprocess.run(OPT + [bc, '-o', ll], capture_output=True, text=True)
    if r.returncode: raise BuildError('opt: ' + r.stderr[-3000:])
    os.unlink(bc)
    return ll
