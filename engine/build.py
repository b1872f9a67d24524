"""Regenerate the LLVM IR of /repo's current sources (fresh on every run)."""
import os
import subprocess
import tempfile
import shutil
import atexit
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VT_REPO', '/repo')
SRC = REPO + '/pyfastutil/src'
CLANG = '/usr/bin/clang++-18'
LINK = '/usr/bin/llvm-link-18'
PYINC = '/usr/include/python3.12'
FLAGS = ['-S', '-emit-llvm', '-O1', '-fPIC', '-fno-strict-overflow', '-DNDEBUG', '-mavx', '-mavx2', '-mavx512f', '-mavx512bw',
         '-mavx512dq', '-mavx512vl', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
         '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fvisibility=hidden', '-g0', '-w', '-I' + SRC, '-I' + PYINC]

CPUS = {
    # leaf 1 ecx, leaf 7 ebx, xcr0
    'avx512': (0xffffffff, 0xffffffff, 0xe7),
    'avx2': (0xffffffff, 0xffffffff & ~((1 << 16) | (1 << 17) | (1 << 30) | (1 << 31) | (1 << 28) | (1 << 21)), 0x7),
    'sse': (0xffffffff & ~((1 << 28) | (1 << 26) | (1 << 27)), 0, 0x3),
    'none': (0, 0, 0),
}


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vt-')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def sources():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith(('.cpp', '.c')):
                out.append(os.path.join(d, f))
    return sorted(out)


def compile_ir(path, out, extra=()):
    lang = ['-x', 'c'] if path.endswith('.c') else ['-x', 'c++', '-std=c++20', '-fgnuc-version=9.0.0', '-mxsave']
    p = subprocess.run([CLANG] + FLAGS + list(extra) + lang + [path, '-o', out], capture_output=True, text=True)
    if p.returncode:
        raise BuildError('clang failed on %s:\n%s' % (path, p.stderr[-2000:]))
    return out


def build_ir(skip=lambda p: os.path.basename(p) == 'SIMDLowAVX512.cpp', only=None, extra=(), tag='all', more=()):
    """compile the translation units and link them; returns the path of the linked .ll"""
    d = scratch()
    srcs = [s for s in sources() if (only(s) if only else not skip(s))] + list(more)
    outs = [os.path.join(d, tag + '_%d_%s.ll' % (i, os.path.basename(s))) for i, s in enumerate(srcs)]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda a: compile_ir(a[0], a[1], extra), zip(srcs, outs)))
    out = os.path.join(d, tag + '.ll')
    p = subprocess.run([LINK, '-S', '-o', out] + outs, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('llvm-link failed: ' + p.stderr[-2000:])
    return out
