"""Build the real extension from /repo's current sources (replay build) and run concrete histories on it."""
import json
import os
import re
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor
from . import build
from .build import BuildError, scratch, sources, PYINC

HERE = os.path.dirname(os.path.abspath(__file__))
CXX = '/usr/bin/g++'
PY = '/usr/bin/python3.12'
FLAGS = ['-O1', '-g1', '-fPIC', '-w', '-fvisibility=hidden', '-mavx', '-mavx2', '-mavx512f', '-mavx512bw',
         '-mavx512dq', '-mavx512vl', '-fno-tree-vectorize', '-fsanitize=address', '-DNDEBUG']
WRAP = ['aligned_alloc', 'posix_memalign', 'PyEval_SaveThread', 'PyEval_RestoreThread']
CPUENV = {k: '%x,%x,%x' % v for k, v in build.CPUS.items()}


def libasan():
    return ' '.join(os.path.realpath(subprocess.run(['/usr/bin/gcc', '-print-file-name=' + n], capture_output=True,
                                                    text=True).stdout.strip()) for n in ('libasan.so', 'libstdc++.so'))


def build_real(avx512=False, out=None, flags=FLAGS, san=True):
    """-> directory holding __pyfastutil.so and vtshim.so"""
    d = out or os.path.join(scratch(), 'real')
    os.makedirs(d, exist_ok=True)
    srcs = [s for s in sources() if avx512 or os.path.basename(s) != 'SIMDLowAVX512.cpp']
    if avx512:
        from . import avx512 as low
        srcs.append(low.write_source())
    inc = ['-I' + build.SRC, '-I' + PYINC]

    def cc(a):
        i, s = a
        o = os.path.join(d, '%d.o' % i)
        std = ['-std=c2x', '-x', 'c'] if s.endswith('.c') else ['-std=c++20']
        pre = [] if s.endswith('shim.cpp') else ['-include', os.path.join(HERE, 'shim.h')]
        ex = [] if avx512 else ['-DVT_NO_AVX512']
        p = subprocess.run([CXX if not s.endswith('.c') else '/usr/bin/gcc'] + flags + std + inc + pre +
                           (ex if s.endswith('shim.cpp') else []) + ['-c', s, '-o', o], capture_output=True, text=True)
        if p.returncode:
            raise BuildError('g++ failed on %s:\n%s' % (s, p.stderr[-2000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, enumerate(srcs + [os.path.join(HERE, 'shim.cpp')])))
    out = os.path.join(d, '__pyfastutil.so')
    p = subprocess.run([CXX, '-shared'] + (['-fsanitize=address'] if san else []) + ['-Wl,-Bsymbolic', '-o', out] + objs +
                       ['-Wl,--wrap=' + w for w in WRAP], capture_output=True, text=True)
    if p.returncode:
        raise BuildError('link failed: ' + p.stderr[-2000:])
    return d


POISON = {'avx512': r'%zmm|\{%k|%k[0-7]', 'avx2': r'%ymm', 'ssse3': r'\tv?(pshufb|phadd|pabs|palignr|pmulhrsw|psign)'}
BUILT = {}
LOCK = threading.Lock()


def poisoned(levels):
    """a build in which every vector instruction of the given levels is replaced by an undefined one"""
    with LOCK:
        key = tuple(sorted(levels))
        if key in BUILT:
            return BUILT[key]
        d = os.path.join(scratch(), 'poison-' + '-'.join(key))
        os.makedirs(d, exist_ok=True)
        build_real(out=d, flags=['-O2', '-fPIC', '-w', '-fvisibility=hidden', '-mavx', '-mavx2', '-mavx512f', '-mavx512bw', '-mavx512dq',
                                 '-mavx512vl', '-fno-tree-vectorize', '-mmove-max=128', '-mstore-max=128', '-DNDEBUG'], san=False)
        so = os.path.join(d, '__pyfastutil.so')
        txt = subprocess.run(['/usr/bin/objdump', '-d', '-F', '--no-show-raw-insn', so], capture_output=True, text=True).stdout
        rx = re.compile('|'.join(POISON[k] for k in key))
        data = bytearray(open(so, 'rb').read())
        delta = 0
        for line in txt.splitlines():
            m = re.match(r'([0-9a-f]+) <.*\(File Offset: 0x([0-9a-f]+)\):', line)
            if m:
                delta = int(m.group(2), 16) - int(m.group(1), 16)
                continue
            m = re.match(r' *([0-9a-f]+):\t(.*)', line)
            if m and rx.search('\t' + m.group(2)) and 'vzero' not in line:
                a = int(m.group(1), 16) + delta
                data[a:a + 2] = b'\x0f\x0b'
        with open(so, 'wb') as f:
            f.write(data)
        BUILT[key] = d
        return d


def env_for(cpu):
    e = dict(os.environ)
    e.pop('PYTHONPATH', None)
    e.update({'LD_PRELOAD': libasan(), 'PYTHONMALLOC': 'malloc', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
              'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0:'
                              'max_malloc_fill_size=65536:malloc_fill_byte=190:handle_abort=1:max_allocation_size_mb=8192:'
                              'detect_stack_use_after_return=0:quarantine_size_mb=64:hard_rss_limit_mb=5000'})
    if cpu in CPUENV:
        e['VT_CPU'] = CPUENV[cpu]
    elif cpu:
        e['VT_CPU'] = cpu
    return e


def run_batch(d, cpu, jobs, timeout=120):
    """run concrete jobs in one process; -> (list of results (shorter when the process died), how it ended, stderr)"""
    p = subprocess.Popen([PY, '-X', 'faulthandler=0', os.path.join(HERE, 'runner.py'), d], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(cpu), text=True)
    try:
        out, err = p.communicate(json.dumps(jobs), timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        rc = 'timeout'
    res = []
    for line in out.splitlines():
        if line.startswith('{"vt":'):
            try:
                res.append(json.loads(line))
            except ValueError:
                pass
    return res, rc, err


def classify(rc, err):
    """describe how a replay process died"""
    if rc == 'timeout':
        return 'does not finish'
    for line in err.splitlines():
        if 'ERROR: AddressSanitizer' in line:
            return 'AddressSanitizer: ' + line.split('AddressSanitizer:')[1].strip()[:160]
    for line in err.splitlines():
        if 'Fatal Python error' in line or 'terminate called' in line:
            return line.strip()[:160]
    return 'process ended with status %s %s' % (rc, err.strip().splitlines()[-1][:120] if err.strip() else '')
