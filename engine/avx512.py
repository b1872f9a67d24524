"""The AVX-512 bindings: what the stub file documents, reference functions calling the compiler's own intrinsic, scenarios."""
import os
import random
import re
import subprocess
import threading
from . import build

VEC = {'__m512i': 64, '__m512': 64, '__m512d': 64, '__m256i': 32, '__m256': 32, '__m256d': 32, '__m128i': 16, '__m128': 16, '__m128d': 16,
       '__mmask8': 1, '__mmask16': 2, '__mmask32': 4, '__mmask64': 8}
INT = {'int': (32, 1), 'const int': (32, 1), 'unsigned': (32, 0), 'unsigned int': (32, 0), 'long long': (64, 1), 'unsigned long long': (64, 0),
       'short': (16, 1), 'char': (8, 1), 'const unsigned int': (32, 0)}
RESULT = dict(VEC, **{'int': 4, 'unsigned': 4, 'unsigned int': 4, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8,
                      'unsigned char': 1, 'char': 1, 'short': 2})
FLOAT = ('float', 'double')
DATA = 128          # bytes behind a pointer operand
_TABLE = None
_WRITTEN = None
LOCK = threading.Lock()


class Binding:
    def __init__(self, name, params, result, kind):
        self.name = name
        self.params = params
        self.result = result
        self.kind = kind            # 'impl', 'unimpl' or 'other'

    @property
    def nargs(self):
        return len(self.params) + (self.result != 'void')


def table(path=None):
    """{name: Binding} from the C prototypes given in the stub file"""
    global _TABLE
    if _TABLE is not None and path is None:
        return _TABLE
    with open(path or build.REPO + '/pyfastutil/unsafe/SIMDLowAVX512.pyi', encoding='utf-8') as f:
        t = f.read()
    out = {}
    for m in re.finditer(r'    def (\w+)\(self,?([^\n]*?)\) -> (\w+):\n        """\n(.*?)"""', t, re.S):
        name, _, res, doc = m.groups()
        p = re.search(r'C method prototype:\s+_%s\(([^\n]*)\) -> ([^\n]*)\n' % re.escape(name), doc)
        if not p:
            continue
        params = [x.split(':', 1)[1].strip() for x in p.group(1).split(',')] if p.group(1).strip() else []
        if params == ['void']:
            params = []
        kind = 'impl'
        if res != 'None':
            kind = 'unimpl'
        else:
            for c in params:
                if c not in VEC and c not in INT and c not in FLOAT and not c.endswith('*'):
                    kind = 'other'      # takes an enumeration: an immediate
            if 'round' in name or p.group(2).strip() not in RESULT and p.group(2).strip() != 'void':
                kind = 'other'
        out[name] = Binding(name, params, p.group(2).strip(), kind)
    if path is None:
        _TABLE = out
    return out


def source(names=None):
    """C++ of the reference functions"""
    out = ['#include <immintrin.h>', 'extern "C" {']
    for b in table().values():
        if b.kind != 'impl' or names is not None and b.name not in names:
            continue
        ps, cs = [], []
        if b.result != 'void':
            ps.append('void *r')
        for i, c in enumerate(b.params):
            if c in VEC or c.endswith('*'):
                ps.append('void *a%d' % i)
                cs.append('*(%s *) a%d' % (c, i))
            elif c in INT:
                ps.append('long long a%d' % i)
                cs.append('(%s) a%d' % (c, i))
            else:
                ps.append('double a%d' % i)
                cs.append('(%s) a%d' % (c, i))
        call = '_%s(%s)' % (b.name, ', '.join(cs))
        if b.result != 'void':
            call = '*(%s *) r = %s' % (b.result, call)
        out.append('__attribute__((visibility("default"), used)) void vtref_%s(%s) {' % (b.name, ', '.join(ps)))
        out.append('    %s;' % call)
        out.append('}')
    out.append('}')
    return '\n'.join(out) + '\n'


def write_source():
    """writes the reference functions that compile; returns the path.  The others are not implemented by this compiler."""
    global _WRITTEN
    with LOCK:
        if _WRITTEN is None:
            _WRITTEN = _write()
        return _WRITTEN


def _write():
    p = os.path.join(build.scratch(), 'vtref.cpp')
    names = None
    for _ in range(4):
        with open(p, 'w') as f:
            f.write(source(names))
        r = subprocess.run([build.CLANG, '-fsyntax-only', '-ferror-limit=0', '-w', '-std=c++20', '-fgnuc-version=9.0.0'] + [
            x for x in build.FLAGS if x.startswith('-m')] + [p], capture_output=True, text=True)
        if not r.returncode:
            return p
        lines = source(names).splitlines()
        bad = set()
        for m in re.finditer(r'vtref\.cpp:(\d+):', r.stderr):
            for k in range(int(m.group(1)) - 1, -1, -1):
                q = re.search(r'vtref_(\w+)\(', lines[k])
                if q:
                    bad.add(q.group(1))
                    break
        for n in bad:
            table()[n].kind = 'other'
        if not bad:
            break
    raise build.BuildError('the reference functions do not compile: ' + r.stderr[-500:])


def width(c):
    return INT[c][0]


def care(b):
    """how many bytes of the result are defined"""
    n = RESULT[b.result]
    if 'undefined' in b.name:
        return 0
    m = re.search(r'cast(?:ps|pd|si)(128|256)_', b.name)
    if m:
        return int(m.group(1)) // 8
    return n


def scenario(b, nargs=None):
    inputs, steps, args, mems, rargs = {}, [{'op': 'new', 'dst': 'u', 'type': 'SIMDLowAVX512', 'args': []}], [], [], []
    flt = {}

    def block(name, n, pre=None):
        inputs[pre or name] = ('bits', 8 * n)
        steps.append({'op': 'mem', 'name': name, 'bytes': [('v', pre or name, k) for k in range(n)]})
        mems.append(name)
    if b.result != 'void':
        block('out', RESULT[b.result])
        args.append(('ptr', 'out', 0))
    for i, c in enumerate(b.params):
        n = 'a%d' % i
        if c in VEC:
            block(n, VEC[c])
            args.append(('ptr', n, 0))
            if c.endswith('d'):
                flt[n] = 'd'
            elif not c.endswith('i') and c.startswith('__m5') or c in ('__m128', '__m256'):
                flt[n] = 'f'
        elif c.endswith('*'):
            block('d%d' % i, DATA)
            steps.append({'op': 'mem', 'name': n, 'bytes': [('addr', 'd%d' % i, k) for k in range(8)]})
            mems.append(n)
            args.append(('ptr', n, 0))
            if re.search(r'_(ps|ss)$', b.name):
                flt['d%d' % i] = 'f'
            elif re.search(r'_(pd|sd)$', b.name):
                flt['d%d' % i] = 'd'
        elif c in INT:
            w, s = INT[c]
            inputs[n] = ('int', -(1 << (w - 1)) if s else 0, (1 << (w - 1 if s else w)) - 1)
            args.append(('v', n))
        else:
            inputs[n] = ('bits', 64)
            args.append(('fbits', n))
            flt[n] = 'd'
    if nargs is None:
        name = 'low/' + b.name
        if b.kind == 'impl':
            steps.append({'op': 'ref', 'fn': 'vtref_' + b.name, 'args': list(args), 'mems': list(mems),
                          'undef': ['out', care(b)] if b.result != 'void' else None})
    else:
        name = 'low/%s/args%d' % (b.name, nargs)
        args = (args + [('int', 1)] * 3)[:nargs]
    steps.append({'op': 'call', 'obj': 'u', 'name': b.name, 'args': args})
    steps += [{'op': 'mcheck', 'mem': m} for m in mems]
    return {'name': name, 'inputs': inputs, 'steps': steps, 'low': flt}


def scens(th):
    from .scen2 import low_surface
    write_source()
    out = [low_surface()]
    for b in table().values():
        if b.kind == 'other':
            continue
        out.append(scenario(b))
        ks = [k for k in (range(0, b.nargs + 3) if th else (b.nargs - 1, b.nargs + 1)) if k >= 0 and k != b.nargs]
        if b.kind == 'impl':
            out += [scenario(b, k) for k in ks]
    return out


def variations(scen, seed=1, n=12):
    """further concrete operands for a replay: the solver's model need not tell two intrinsics apart"""
    import struct
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        d = {}
        for k, t in scen['inputs'].items():
            if t[0] == 'int':
                d[k] = rnd.choice([rnd.randint(t[1], t[2]), rnd.randint(max(t[1], -9), min(t[2], 9))])
                continue
            nb = t[1] // 8
            f = scen['low'].get(k)
            if f and nb >= (8 if f == 'd' else 4):
                z = 8 if f == 'd' else 4
                bs = b''.join(struct.pack('<' + f, rnd.choice((-1, 1)) * (1 + rnd.randint(1, 4000) / 64.0)) for _ in range(nb // z))
                d[k] = int.from_bytes(bs, 'little')
            else:
                d[k] = rnd.getrandbits(t[1])
        out.append(d)
    return out
