"""Runs concrete histories on the real extension (its own process, system python) and compares each step with the
reference model.  stdin: list of jobs; one JSON line per job on stdout."""
import importlib.util
import importlib.machinery
import json
import operator
import os
import struct
import sys
import ctypes

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


from engine.spec import Spec, SpecErr, Undefined  # noqa: E402
from engine.memspec import cpu_flags  # noqa: E402
from engine.specrun import run_spec, mutates, names_in, on_raise  # noqa: E402


def load(d, name, file='__pyfastutil.so'):
    p = os.path.join(d, file)
    ld = importlib.machinery.ExtensionFileLoader(name, p)
    sp = importlib.util.spec_from_file_location(name, p, loader=ld)
    m = importlib.util.module_from_spec(sp)
    ld.exec_module(m)
    return m


class UserError(Exception):
    pass


class World:
    pass


CUR = None  # the running history
LOWREF = None  # the reference functions of the AVX-512 bindings


def fire(key):
    w = CUR
    if w is None or not w.events:
        return
    for i, ev in enumerate(w.events):
        if ev['on'] != key:
            continue
        n = w.evn.get(i, 0)
        w.evn[i] = n + 1
        if ev['at'] == '*' or n == ev['at']:
            do = ev['do']
            if isinstance(do, dict):
                do = do['of'][min(max(int(w.val.get(do['pick'], 0)), 0), len(do['of']) - 1)]
            if do == 'raise':
                w.raised += 1
                raise UserError('raised by the event')
            w.nested(do)
            return


class U:
    __slots__ = ('name', 'rank', '__weakref__')

    def __init__(self, name, rank):
        self.name, self.rank = name, rank

    def __eq__(self, o):
        fire('cmp')
        return self.rank == o.rank if isinstance(o, U) else NotImplemented

    def __ne__(self, o):
        fire('cmp')
        return self.rank != o.rank if isinstance(o, U) else NotImplemented

    def __lt__(self, o):
        fire('cmp')
        return self.rank < o.rank if isinstance(o, U) else NotImplemented

    def __gt__(self, o):
        fire('cmp')
        return self.rank > o.rank if isinstance(o, U) else NotImplemented

    def __le__(self, o):
        fire('cmp')
        return self.rank <= o.rank if isinstance(o, U) else NotImplemented

    def __ge__(self, o):
        fire('cmp')
        return self.rank >= o.rank if isinstance(o, U) else NotImplemented

    __hash__ = None

    def __repr__(self):
        fire('repr')
        return '<%s>' % self.name


class UD(U):
    __slots__ = ()

    def __del__(self):
        try:
            fire('del:' + self.name)
        except Exception:
            pass


class Idx:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


class UIter:
    def __init__(self, src):
        self.src, self.i = src, 0

    def __iter__(self):
        return self

    def __next__(self):
        fire('next')
        s = self.src
        if self.i >= len(s.items):
            end = self.i < (1 << 40) and s.d.get('end') == 'raise'
            self.i = 1 << 40
            if end:
                raise UserError('end')
            raise StopIteration
        self.i += 1
        return s.items[self.i - 1]


class UIterable:
    def __init__(self, items, d):
        self.items, self.d = items, d

    def __iter__(self):
        fire('iter')
        if self.d.get('iter_raises'):
            raise UserError('iter')
        return UIter(self)


class UIterableHint(UIterable):
    def __length_hint__(self):
        fire('hint')
        h = self.d['hint']
        if h == 'raise':
            raise UserError('hint')
        return h


class USeq(UIterable):
    def __len__(self):
        fire('len')
        if self.d.get('len_raises'):
            raise UserError('len')
        return self.d.get('len', len(self.items))

    def __getitem__(self, i):
        fire('item')
        if self.d.get('raise_at') == i:
            raise UserError('item')
        return self.items[i]


class Fn:
    """model callable"""

    def __init__(self, w, beh):
        self.w, self.beh = w, beh

    def __call__(self, o):
        fire('call')
        k = self.beh['key']
        if k == 'ident':
            return o
        if k == 'none':
            return None
        if k == 'const':
            return 7
        if k == 'neg':
            return -o
        if k == 'half':
            return o >> 1
        if k == 'pair':
            return o >> 1, -o
        if k == 'dbl':
            return -o / 2
        if k == 'text':
            return str(o)
        if k == 'table':
            return self.w.env[self.beh['pre'] + o.name]
        raise TypeError(k)


class Mismatch(Exception):
    pass


CMP = {'lt': operator.lt, 'le': operator.le, 'eq': operator.eq, 'ne': operator.ne, 'gt': operator.gt, 'ge': operator.ge}
BIN = {'add': operator.add, 'iadd': operator.iadd, 'mul': operator.mul, 'imul': operator.imul,
       'contains': operator.contains}


def protocol(e):
    m = str(e)
    return isinstance(e, SystemError) and ('exception set' in m or 'without setting' in m or 'bad argument' in m or
                                           'returned' in m)


class PyBuffer(ctypes.Structure):
    _fields_ = [('buf', ctypes.c_void_p), ('obj', ctypes.c_void_p), ('len', ctypes.c_ssize_t), ('itemsize', ctypes.c_ssize_t),
                ('readonly', ctypes.c_int), ('ndim', ctypes.c_int), ('format', ctypes.c_char_p),
                ('shape', ctypes.POINTER(ctypes.c_ssize_t)), ('strides', ctypes.POINTER(ctypes.c_ssize_t)),
                ('suboffsets', ctypes.c_void_p), ('internal', ctypes.c_void_p)]


GetBuffer = ctypes.pythonapi.PyObject_GetBuffer
GetBuffer.argtypes = [ctypes.py_object, ctypes.c_void_p, ctypes.c_int]


def peek_poke(addr, n, x=None):
    """through memcpy, which the address sanitizer checks"""
    b = (ctypes.c_char * n)()
    if x is not None:
        b.raw = x.to_bytes(n, 'little', signed=True)
        LIBC.memcpy(ctypes.c_void_p(addr), b, n)
        return None
    LIBC.memcpy(b, ctypes.c_void_p(addr), n)
    return int.from_bytes(b.raw, 'little', signed=True)


LIBC = ctypes.CDLL(None)
LIBC.memcpy.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]
LIBC.posix_memalign.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t]
LIBC.rewind.argtypes = LIBC.ftell.argtypes = [ctypes.c_void_p]
LIBC.ftell.restype = ctypes.c_long
LIBC.fflush.argtypes = [ctypes.c_void_p]
CSTDIN = ctypes.c_void_p.in_dll(LIBC, 'stdin')
LIBC.free.argtypes = [ctypes.c_void_p]
LIBC.malloc_usable_size.argtypes = [ctypes.c_void_p]
LIBC.malloc_usable_size.restype = ctypes.c_size_t


class Run:
    def __init__(self, T, job, shim):
        self.T = T
        self.job = job
        self.shim = shim
        self.scen = job['scen']
        self.val = job['inputs']
        self.events = self.scen.get('events') or []
        self.evn = {}
        self.raised = 0
        self.reent = 0
        self.free = self.scen.get('free', False)
        self.fault = job.get('fault')
        self.hit = 0
        self.allocs = 0
        self.env, self.senv, self.heap, self.nid, self.addr = {}, {}, {}, 0, {}
        self.ranks = {}
        self.views = {}
        self.keep = {}
        for n, d in self.scen['inputs'].items():
            v = self.val.get(n, 0)
            if d[0] == 'int':
                self.env[n] = int(str(v))
                self.senv[n] = ('int', self.env[n])
            elif d[0] == 'obj':
                self.env[n] = (UD if any(e['on'] == 'del:' + n for e in self.events) else U)(n, v)
                self.ranks[n] = v
                self.senv[n] = ('obj', n)
            elif d[0] == 'bits':
                self.val = dict(self.val)
                self.val[n] = int(v) & ((1 << d[1]) - 1)
        self.keep = {} if any(e['on'].startswith('del:') for e in self.events) else dict(self.env)
        self.mem, self.fns, self.calls, self.marks, self.rcset, self.blocks = {}, {}, {}, {}, None, []
        self.cpu = None
        self.fds = None
        self.armed = None
        self.gil = any(e['on'] in ('release', 'restore') for e in self.events)

    def watching(self):
        self.shim.on_release(self.other_thread if self.gil else None)
        self.shim.watch(tuple(self.env.values()) if self.gil else None)

    def other_thread(self, key):
        if CUR is self:
            self.gilkeys = getattr(self, 'gilkeys', 0) + 1
            fire(key)

    def build(self, a):
        k = a[0]
        if k == 'v':
            return self.env[a[1]]
        if k in ('int', 'float'):
            return a[1]
        if k == 'chars':
            return ''.join(chr(x if isinstance(x, int) else int(self.val[x])) for x in a[1])
        if k in ('fbits', 'dbl'):
            return struct.unpack('<d', struct.pack('<Q', self.val[a[1]]))[0]
        if k == 'bool':
            return bool(a[1])
        if k == 'none':
            return None
        if k == 'str':
            return a[1]
        if k == 'bytes':
            return bytes(self.bval(x) for x in a[1])
        if k == 'ptr':
            return self.mem[a[1]] + a[2]
        if k == 'fnp':
            return self.mem[a[1]]
        if k == 'addr':
            return id(self.env[a[1]])
        if k == 'list':
            return [self.build(x) for x in a[1]]
        if k == 'tuple':
            return tuple(self.build(x) for x in a[1])
        if k == 'iterable':
            return (UIterableHint if 'hint' in a[2] else UIterable)([self.build(x) for x in a[1]], a[2])
        if k == 'seq':
            return USeq([self.build(x) for x in a[1]], a[2])
        if k == 'slice':
            return slice(*[self.build(x) for x in a[1:4]])
        if k == 'index':
            return Idx(self.build(a[1]))
        if k == 'fn':
            return Fn(self, a[1])
        raise Mismatch('unknown value ' + k)

    def sval(self, a):
        k = a[0]
        if k == 'v':
            return self.senv[a[1]]
        if k in ('list', 'tuple'):
            return (k, tuple(self.sval(x) for x in a[1]))
        if k in ('iterable', 'seq'):
            return (k, tuple(self.sval(x) for x in a[1]), a[2])
        if k == 'slice':
            return ('slice',) + tuple(self.sval(x) for x in a[1:4])
        if k == 'index':
            return ('index', self.sval(a[1])[1])
        if k == 'bytes':
            return ('bytes', tuple(self.bval(x) for x in a[1]))
        if k == 'ptr':
            return ('ptr', self.senv['mem:' + a[1]][1], a[2])
        if k == 'fnp':
            return self.senv['mem:' + a[1]]
        if k == 'addr':
            return ('addr', self.senv[a[1]])
        if k == 'dbl':
            return ('dbl', int(self.val[a[1]]) & (1 << 64) - 1)
        if k == 'chars':
            return ('chars', tuple(x if isinstance(x, int) else int(self.val[x]) for x in a[1]))
        return tuple(a)

    def bval(self, x):
        if not isinstance(x, (tuple, list)):
            return x
        if x[0] == 'addr':
            return self.mem[x[1]] >> 8 * x[2] & 255
        return self.val[x[1]] >> 8 * x[2] & 255 if len(x) > 2 else self.val[x[1]]

    def ref(self, s):
        def get(m):
            n = len(self.heap[self.senv['mem:' + m][1]][1])
            return ctypes.string_at(self.mem[m], n) if n else b''
        before = {m: get(m) for m in s['mems']}
        f = LOWREF[s['fn']]
        f.restype = None
        args = []
        for a in s['args']:
            if a[0] == 'ptr':
                args.append(ctypes.c_void_p(self.mem[a[1]] + a[2]))
            elif a[0] == 'fbits':
                args.append(ctypes.c_double(struct.unpack('<d', struct.pack('<Q', self.val[a[1]]))[0]))
            else:
                args.append(ctypes.c_longlong(self.env[a[1]] - (1 << 64) if self.env[a[1]] >> 63 == 1 else self.env[a[1]]))
        f(*args)
        for m in s['mems']:
            bs = list(get(m))
            if s.get('undef') and s['undef'][0] == m:
                bs[s['undef'][1]:] = [None] * (len(bs) - s['undef'][1])
            self.heap[self.senv['mem:' + m][1]] = ('M', tuple(bs), True)
            ctypes.memmove(self.mem[m], before[m], len(before[m]))

    def mem_op(self, s):
        op = s['op']
        if op == 'mem':
            data = bytes(self.bval(x) for x in s['bytes'])
            p = ctypes.c_void_p()
            LIBC.posix_memalign(ctypes.byref(p), 64, len(data))
            self.blocks.append(p)
            ctypes.memmove(p, data, len(data))
            self.nid += 1
            self.heap[self.nid] = ('M', tuple(data), True)
            self.senv['mem:' + s['name']] = ('mem', self.nid)
            self.mem[s['name']] = p.value
        elif op == 'func':
            r = s['ret']
            if r[0] == 'ptr':
                rv = ('ptr', self.senv['mem:' + r[1]][1], r[2])
                raw = self.mem[r[1]] + r[2]
            else:
                raw = self.bval(r[1])
                rv = ('int', raw)
                if s.get('bits') == 32:
                    raw = (raw & 0xffffffff) | 0xdeadbeef << 32
            calls = self.calls
            name = s['name']
            calls[name] = 0

            def f():
                calls[name] += 1
                return raw
            self.fns[name] = ctypes.CFUNCTYPE(ctypes.c_uint64)(f)
            self.nid += 1
            self.heap[self.nid] = ('F', rv, 0)
            self.senv['mem:' + name] = ('fn', self.nid)
            self.mem[name] = ctypes.cast(self.fns[name], ctypes.c_void_p).value
        elif op == 'mcheck':
            if s['mem'] not in self.mem:
                return
            h = self.heap[self.senv['mem:' + s['mem']][1]]
            if not h[2]:
                return
            b = (ctypes.c_char * max(len(h[1]), 1))()
            LIBC.memcpy(b, ctypes.c_void_p(self.mem[s['mem']]), len(h[1]))
            for i, e in enumerate(h[1]):
                if e is not None and b.raw[i] != e:
                    raise Mismatch('byte %d of %s is %d, expected %d' % (i, s['mem'], b.raw[i], e))
        elif op == 'fcheck':
            n = self.heap[self.senv['mem:' + s['fn']][1]][2]
            if self.calls[s['fn']] != n:
                raise Mismatch('the function was called %d times, expected %d' % (self.calls[s['fn']], n))
        elif op == 'stdin':
            self.console(s)
        elif op == 'outcheck':
            if s.get('all'):
                LIBC.fflush(None)
            got = os.pread(1, 1 << 20, 0)
            want = bytes(self.heap[self.senv['mem:stdout'][1]][1])
            if got != want:
                raise Mismatch('the output is %r, expected %r' % (got, want))
            h = self.heap[self.senv['mem:stdin'][1]]
            if h[2] == 'eof':
                left = len(self.fed) - LIBC.ftell(CSTDIN)
                if left != len(h[1]):
                    raise Mismatch('%d bytes of the input are unread, expected %d' % (left, len(h[1])))
        elif op == 'rcmark':
            self.marks[s['obj']] = sys.getrefcount(self.env[s['obj']]) if s['obj'] in self.env else None
        elif op == 'rccheck':
            if s['obj'] in self.env:
                d = sys.getrefcount(self.env[s['obj']]) - self.marks[s['obj']]
                if d != s['delta']:
                    raise Mismatch('the reference count of %s changed by %d, expected %d' % (s['obj'], d, s['delta']))
        elif op == 'setrc':
            c = ctypes.c_ssize_t.from_address(id(self.env[s['obj']]))
            self.rcset = (c, self.val[s['val'][1]])
            c.value += self.rcset[1]
        elif op == 'unsetrc':
            c, v = self.rcset
            self.rcset = None
            c.value -= v

    def console(self, s):
        """files in the place of the C streams"""
        LIBC.fflush(None)
        self.fds = [os.dup(0), os.dup(1)]
        if s['end'] == 'error':
            i = os.open('/', os.O_RDONLY)
        else:
            i = os.memfd_create('in')
            self.fed = bytes(x if isinstance(x, int) else int(self.val[x]) for x in s['bytes'])
            os.write(i, self.fed)
        o = os.memfd_create('out')
        os.dup2(i, 0)
        os.dup2(o, 1)
        os.close(i)
        os.close(o)
        LIBC.rewind(CSTDIN)
        self.nid += 2
        self.heap[self.nid - 1] = ('O', ())
        self.heap[self.nid] = ('I', tuple(x if isinstance(x, int) else int(self.val[x]) for x in s['bytes']), s['end'])
        self.senv['mem:stdout'] = ('io', self.nid - 1)
        self.senv['mem:stdin'] = ('io', self.nid)

    def release(self):
        if self.fds:
            LIBC.fflush(None)
            os.dup2(self.fds[0], 0)
            os.dup2(self.fds[1], 1)
            for f in self.fds:
                os.close(f)
            self.fds = None
        if self.rcset:
            self.mem_op({'op': 'unsetrc'})
        for p in self.blocks:
            LIBC.free(p)
        self.blocks = []

    def nested(self, steps):
        saved = self.armed
        self.free += 1
        try:
            for s in steps:
                self.step(s)
        finally:
            self.free -= 1
            self.armed = saved

    def run(self):
        global CUR
        CUR = self
        self.free = int(self.free)
        self.watching()
        try:
            for i, s in enumerate(self.scen['steps']):
                self.i = i
                try:
                    r = self.step(s)
                except Mismatch as e:
                    return {'status': 'mismatch', 'step': i, 'msg': str(e)}
                if r == 'undef':
                    return {'status': 'undef', 'step': i}
        finally:
            self.release()
        if self.gil and self.shim.released()[1]:
            return {'status': 'mismatch', 'step': None, 'msg': 'a reference count changed while the interpreter lock was released'}
        return {'status': 'ok', 'hit': self.hit, 'allocs': self.allocs}

    def call(self, f, *args, **kw):
        """run one operation of the extension with the fault armed"""
        if self.armed is None or self.fault is None:
            return f(*args, **kw)
        sh = self.shim
        sh.arm(self.fault)
        try:
            return f(*args, **kw)
        finally:
            h, n, _ = sh.disarm()
            self.hit += h
            self.allocs += n
            if h:
                self.armed = None

    def step(self, s):
        op = s['op']
        env = self.env
        if op == 'faults':
            self.armed = 1 if s['on'] else None
            return
        if op == 'assume':
            return
        if op == 'let':
            env[s['dst']] = self.build(s['val'])
            if s['val'][0] == 'list' and s.get('shared'):
                self.nid += 1
                self.heap[self.nid] = ('L', 'list', self.sval(s['val'])[1], 0)
                self.senv[s['dst']] = ('ref', self.nid)
                self.addr[self.nid] = env[s['dst']]
            else:
                self.senv[s['dst']] = self.sval(s['val'])
            return
        if op == 'del':
            env.pop(s['obj'], None)
            self.senv.pop(s['obj'], None)
            return
        if op in ('vget', 'vset', 'vcheck', 'vrel'):
            return self.view_op(s)
        if op == 'cpu':
            v = self.val
            self.cpu = cpu_flags(v['max'], v['ecx'], v['ebx'], v['xcr'])
            return
        if op in ('mem', 'func', 'mcheck', 'fcheck', 'setrc', 'unsetrc', 'rcmark', 'rccheck', 'stdin', 'outcheck'):
            return self.mem_op(s)
        if op == 'ref':
            return self.ref(s)
        if op == 'surface':
            return self.surface(s)
        if s.get('needmem'):
            m = self.senv.get('mem:' + s['needmem'])
            if m is None or not self.heap[m[1]][2]:
                return
        if 'obj' in s and s['obj'] not in env:
            return
        for n in s.get('needs', ()):
            if n not in env:
                return
        if op == 'obs':
            return self.observe(s['obj'])
        if op == 'view':
            return self.view(s)
        err = ret = None
        r0 = self.raised
        n0 = self.reent
        h0 = self.hit
        try:
            args = [self.build(a) for a in s.get('args', ())]
            kw = {k: self.build(a) for k, a in (s.get('kw') or {}).items()}
            if op == 'new':
                ret = self.call(subclass(self.T[s['type']], s['sub']) if s.get('sub') else self.T[s['type']], *args, **kw)
            elif op == 'callstatic':
                ret = self.call(getattr(self.T[s['type']], s['name']), *args, **kw)
            elif op == 'call':
                ret = self.call(getattr(env[s['obj']], s['name']), *args, **kw)
            else:
                o = env[s['obj']]
                if op == 'len':
                    ret = self.call(len, o)
                elif op == 'getitem':
                    ret = self.call(operator.getitem, o, self.build(s['key']))
                elif op == 'setitem':
                    ret = self.call(operator.setitem, o, self.build(s['key']), self.build(s['val']))
                elif op == 'delitem':
                    ret = self.call(operator.delitem, o, self.build(s['key']))
                elif op == 'cmp':
                    ret = self.call(CMP[s['cmp']], o, self.build(s['val']))
                elif op in BIN:
                    ret = self.call(BIN[op], o, self.build(s['val']))
                elif op == 'iter':
                    ret = self.call(iter, o)
                elif op == 'reversed':
                    ret = self.call(reversed, o)
                elif op == 'next':
                    ret = self.call(next, o)
                elif op == 'tolist':
                    ret = self.call(list, o)
                elif op == 'repr':
                    ret = self.call(repr, o)
                elif op == 'str':
                    ret = self.call(str, o)
                elif op == 'reinit':
                    ret = self.call(o.__init__, *args, **kw)
                else:
                    raise Mismatch('unknown op ' + op)
        except Mismatch:
            raise
        except BaseException as e:
            err = e
            e.__traceback__ = None
            e.__context__ = None
        name = '%s%s' % (op, ' ' + (s.get('name') or s.get('cmp') or s.get('type') or '') if op in ('call', 'cmp', 'callstatic', 'new') else '')
        if err is not None and protocol(err):
            raise Mismatch('%s: SystemError: %s' % (name, err))
        if self.raised > r0 and not self.free:
            if err is None:
                raise Mismatch('%s swallowed an exception raised by user code' % name)
            if type(err).__name__ != 'UserError':
                raise Mismatch('%s replaced an exception raised by user code with %s' % (name, type(err).__name__))
        if self.free or self.reent > n0 or self.is_free(s):
            return self.free_commit(s, ret, err)
        if self.raised > r0:
            how = on_raise(s)
            if how:
                self.forget(s.get('obj'), how)
            return
        if type(err).__name__ == 'BufferError' and s.get('obj') in self.senv and any(
                w[1] == self.senv[s['obj']][1] for w in self.views.values()):
            return
        faulted = self.hit > h0
        out = self.spec(s)
        if out[0] == 'undef':
            return 'undef'
        if err is not None:
            en = type(err).__name__
            if faulted:
                if en not in ('MemoryError', 'RuntimeError', 'TypeError', 'OverflowError'):
                    raise Mismatch('%s reports %s for an allocation failure' % (name, en))
                if s.get('onfault', 'unchanged') == 'forget' and s.get('obj') in self.senv:
                    self.forget(s['obj'])
                return
            ok = False
            if out[0] == 'err':
                ok = en in out[1] or '*' in out[1]
            elif out[1][0] == 'anyof':
                ok = any(x[0] == 'err' and en in x[1:] for x in out[1][1:])
            if not ok:
                raise Mismatch('%s raised %s(%s), expected %s' % (name, en, str(err)[:60], str(out)[:120]))
            self.heap, self.nid = out[2], out[3]
            return
        if out[0] == 'err':
            raise Mismatch('%s returned %.60r, expected %s' % (name, self.short(ret), '/'.join(out[1])))
        self.heap, self.nid = out[2], out[3]
        if op in ('setitem', 'delitem', 'reinit'):
            return
        self.match(ret, out[1], name, s)
        if s.get('dst'):
            env[s['dst']] = ret
            self.senv[s['dst']] = out[1]

    def surface(self, s):
        c = self.T.get(s['type'])
        if not isinstance(c, type):
            raise Mismatch('the class %s is not provided' % s['type'])
        if s['type'].endswith('Iter'):
            o = iter(self.T[s['type'][:-4]]())
        else:
            o = c()
        for n in s['names']:
            try:
                f = getattr(o, n)
            except AttributeError as e:
                raise Mismatch('an instance of %s has no %s: %s' % (s['type'], n, e))
            if not callable(f):
                raise Mismatch('%s of %s cannot be called' % (n, s['type']))

    def view(self, s):
        o = self.env[s['obj']]
        fl = self.sval(s['flags'])[1]
        hid = self.senv[s['obj']][1]
        ty, items = self.heap[hid][1:3]
        isz = 8 if ty == 'BigIntArrayList' else 4
        b = PyBuffer()
        try:
            GetBuffer(ctypes.py_object(o), ctypes.byref(b), fl)
        except BaseException:
            raise Mismatch('the buffer of a list could not be taken')
        self.views[s['dst']] = (b, hid, ty, len(items))
        for what, x, want in (('obj', b.obj, id(o)), ('len', b.len, isz * len(items)), ('itemsize', b.itemsize, isz),
                              ('readonly', b.readonly, 0), ('ndim', b.ndim, 1), ('suboffsets', b.suboffsets, None)):
            if x != want:
                raise Mismatch('view: %s is %s, expected %s' % (what, x, want))
        if (b.format is not None) != bool(fl & 4) or (fl & 4 and b.format not in ((b'i',) if isz == 4 else (b'q', b'l'))):
            raise Mismatch('view: format is %s' % b.format)
        for what, p, m, want in (('shape', b.shape, 8, len(items)), ('strides', b.strides, 0x18, isz)):
            if bool(p) != (fl & m == m) or (p and p[0] != want):
                raise Mismatch('view: %s is wrong' % what)

    def view_op(self, s):
        w = self.views.get(s['view'])
        if w is None:
            return
        b, hid, ty, n = w
        if s['op'] == 'vrel':
            del self.views[s['view']]
            ctypes.pythonapi.PyBuffer_Release(ctypes.byref(b))
            return
        h = self.heap[hid]
        T = ctypes.c_longlong if ty == 'BigIntArrayList' else ctypes.c_int
        isz = ctypes.sizeof(T)
        if s['op'] == 'vset':
            if s['i'] < n:
                x = self.sval(s['val'])[1]
                peek_poke(b.buf + isz * s['i'], isz, x)
                if h[0] == 'L':
                    items = list(h[2])
                    items[s['i']] = ('int', x)
                    self.heap[hid] = ('L', h[1], tuple(items)) + tuple(h[3:])
            return
        if h[0] == 'L' and len(h[2]) != n:
            raise Mismatch('the view has %d elements, the list has %d' % (n, len(h[2])))
        for i in range(n) if s['op'] == 'vcheck' else (s['i'],):
            x = peek_poke(b.buf + isz * i, isz)
            if h[0] == 'L' and x != h[2][i][1]:
                raise Mismatch('view[%d] differs from the list' % i)

    @staticmethod
    def short(x):
        return x

    def is_free(self, s):
        for n in names_in(s):
            sp = self.senv.get(n)
            if sp and sp[0] == 'ref' and self.heap.get(sp[1], (0,))[0] in ('?', 'P'):
                return True
        return False

    def forget(self, n, how='?'):
        sp = self.senv.get(n)
        if sp and sp[0] == 'ref' and self.heap[sp[1]][0] in ('L', 'I', 'P'):
            self.heap[sp[1]] = (how,) + tuple(self.heap[sp[1]][1:])

    def free_commit(self, s, ret, err):
        """outcome not compared; what the operation may have changed is forgotten"""
        if mutates(s):
            self.forget(s.get('obj'))
            if self.free:
                self.reent += 1
        if s.get('dst') and err is None:
            self.env[s['dst']] = ret
            self.nid += 1
            self.heap[self.nid] = ('?', s.get('type', ''), (), 0)
            self.senv[s['dst']] = ('ref', self.nid)

    def spec(self, s):
        sp = Spec(bool, self.ranks, dict(self.heap), self.nid)
        sp.cpu = self.cpu
        try:
            r = run_spec(sp, self.sval, self.senv, s)
            return ('val', r, sp.heap, sp.nid)
        except SpecErr as e:
            return ('err', e.names, sp.heap, sp.nid)
        except Undefined:
            return ('undef',)

    def match(self, o, exp, what, s=None):
        k = exp[0]
        if k in ('newmem', 'addrof', 'refcnt'):
            if type(o) is not int:
                raise Mismatch('%s returned %.60r' % (what, o))
            if k == 'addrof':
                ok = o == id(self.env[s['args'][0][1]])
            elif k == 'refcnt':
                # the call itself holds a few more references than are counted here
                c = sys.getrefcount(self.env[s['args'][0][1]])
                ok = o == c or c < (1 << 32) - 1 and abs(o - c) <= 4
            else:
                n = len(self.heap[exp[1]][1])
                ok = o and o % exp[2] == 0 and LIBC.malloc_usable_size(ctypes.c_void_p(o)) >= n
                if s.get('mdst'):
                    self.senv['mem:' + s['mdst']] = ('mem', exp[1])
                    self.mem[s['mdst']] = o
            if not ok:
                raise Mismatch('%s returned %#x, expected %s' % (what, o, exp))
            return
        if k == 'any':
            return
        if k == 'anyof':
            for x in exp[1:]:
                if x[0] == 'err':
                    continue
                try:
                    return self.match(o, x, what)
                except Mismatch:
                    pass
            raise Mismatch('%s returned %.60r, expected %s' % (what, o, exp))
        if k == 'ref':
            h = self.heap[exp[1]]
            if exp[1] in self.addr:
                if self.addr[exp[1]] is not o:
                    raise Mismatch(what + ' should have returned the same object')
                return
            if h[0] in 'LU':
                if type(o).__name__ != ('Sub' if s and s.get('sub') else '') + h[1]:
                    raise Mismatch('%s returned a %s, expected a %s' % (what, type(o).__name__, h[1]))
            elif not hasattr(o, '__next__'):
                raise Mismatch('%s should return an iterator' % what)
            if any(o is x for x in self.addr.values()):
                raise Mismatch('%s returned an existing object instead of a new one' % what)
            self.addr[exp[1]] = o
            return
        if k in ('list', 'tuple'):
            if type(o).__name__ != k or len(o) != len(exp[1]):
                raise Mismatch('%s returned %.80r, expected %d items' % (what, o, len(exp[1])))
            for i, (x, e) in enumerate(zip(o, exp[1])):
                self.match(x, e, '%s item %d' % (what, i))
            return
        if k == 'obj':
            ok = isinstance(o, U) and o.name == exp[1]
        elif k == 'none':
            ok = o is None
        elif k == 'int':
            ok = type(o) is int and o == exp[1]
        elif k == 'bool':
            ok = type(o) is bool and o == bool(exp[1])
        elif k == 'str':
            ok = type(o) is str and o == exp[1]
        elif k == 'bytes':
            ok = type(o) is bytes and len(o) == len(exp[1]) and all(x is None or x == y for x, y in zip(exp[1], o))
        elif k == 'float':
            ok = type(o) is float and o == exp[1]
        elif k == 'dbl':
            ok = type(o) is float and struct.pack('<d', o) == struct.pack('<Q', exp[1])
        elif k == 'chars':
            ok = type(o) is str and tuple(map(ord, o)) == exp[1]
        else:
            return
        if not ok:
            raise Mismatch('%s returned %.80r, expected %.80s' % (what, o, exp))

    def observe(self, n):
        o = self.env[n]
        h = self.heap.get(self.senv[n][1])
        try:
            ln = len(o)
            items = []
            for i in range(min(ln, 80)):
                items.append(o[i])
            if ln > 80:
                items = o.to_list()
        except BaseException as e:
            raise Mismatch('reading %s raised %s' % (n, type(e).__name__))
        if h[0] == '?' or self.free:
            return
        if h[0] == 'P':
            want = [plain(x) for x in h[2]]
            for x in items:
                x = named(x)
                for i, y in enumerate(want):
                    if type(x) is type(y) and x == y:
                        del want[i]
                        break
                else:
                    want.append(x)
            if want:
                raise Mismatch('%s is not a permutation of its previous elements' % n)
            return
        if ln != len(h[2]):
            raise Mismatch('len(%s) is %d, expected %d' % (n, ln, len(h[2])))
        for i, x in enumerate(items):
            self.match(x, h[2][i], '%s[%d]' % (n, i))


SUBS = {}


def subclass(T, how):
    if (T, how) not in SUBS:
        SUBS[T, how] = type('Sub' + T.__name__, (T,), {'__init__': lambda self, *a, **k: None} if how == 'raw' else {})
    return SUBS[T, how]


def plain(x):
    if x[0] in ('obj', 'int', 'str', 'float'):
        return x[1]
    if x[0] == 'chars':
        return ''.join(map(chr, x[1]))
    if x[0] == 'dbl':
        return struct.unpack('<d', struct.pack('<Q', x[1]))[0]
    if x[0] == 'tuple':
        return tuple(map(plain, x[1]))
    return None


def named(x):
    if type(x) is tuple:
        return tuple(map(named, x))
    return x.name if isinstance(x, U) else x


def counts(r):
    return {n: sys.getrefcount(o) for n, o in r.keep.items() if isinstance(o, U) or (isinstance(o, int) and abs(o) > 300)}


def fresh_ints(r):
    """inputs as objects of their own, so that their reference counts mean something"""
    for n, o in list(r.env.items()):
        if isinstance(o, int):
            v = int(str(o))
            r.env[n] = v
            r.keep[n] = v
    return r


def main():
    global CUR, LOWREF
    d = sys.argv[1]
    m = load(d, '__pyfastutil')
    shim = load(d, 'vtshim')
    if hasattr(m, 'SIMDLowAVX512'):
        LOWREF = ctypes.CDLL(os.path.join(d, '__pyfastutil.so'))
    T = {}
    for n in dir(m):
        x = getattr(m, n)
        T[n] = getattr(x, n, x)
    libc = ctypes.CDLL(None)
    cur = getattr(libc, '__sanitizer_get_current_allocated_bytes', None)
    if cur is not None:
        cur.restype = ctypes.c_size_t
    import gc
    gc.disable()
    for job in json.load(sys.stdin):
        out = {'vt': job.get('id')}
        print(json.dumps({'vt': 'start', 'id': job.get('id')}), flush=True)
        if job.get('sweep') is not None:
            res = {'status': 'ok'}
            for n in range(job['sweep']):
                job['fault'] = n
                r = Run(T, job, shim)
                c0 = counts(r)
                res = r.run()
                if res['status'] != 'ok' or not res.get('hit'):
                    break
                r.env = r.senv = r.addr = None
                c1 = counts(r)
                bad = {k: c1[k] - c0[k] + 1 for k in c0 if c1[k] - c0[k] + 1}
                r = None
                if bad and job.get('refs'):
                    res = {'status': 'refs', 'msg': 'reference counts changed by %s' % bad}
                    break
                if job.get('refs') and cur is not None:
                    mem = []
                    for reps in (3, 40):
                        for _ in range(reps):
                            Run(T, job, shim).run()
                        CUR = None
                        gc.collect()
                        mem.append(cur())
                    if mem[1] - mem[0] >= 40 * 8:
                        res = {'status': 'leak', 'msg': '%d bytes are lost by each run' % ((mem[1] - mem[0]) // 40)}
                        break
            CUR = None
            out.update(res)
            out['fault'] = job['fault']
            print(json.dumps(out), flush=True)
            continue
        r = fresh_ints(Run(T, job, shim))
        c0 = counts(r)
        res = r.run()
        for more in job.get('also', ()):
            if res['status'] == 'ok':
                r = fresh_ints(Run(T, dict(job, inputs=more), shim))
                c0 = counts(r)
                res = r.run()
        if job.get('refs'):
            CUR = None
            keep = r.keep
            r.env = r.senv = r.addr = None
            c1 = counts(r)
            d1 = {n: c1[n] - c0[n] for n in c0}
            # env and keep both held the inputs at c0; only keep does now
            d2 = {n: x + 1 for n, x in d1.items()}
            bad = {n: x for n, x in d2.items() if x}
            if bad and res['status'] in ('ok', 'undef'):
                res = {'status': 'refs', 'msg': 'reference counts changed by %s' % bad}
        if job.get('leak') and res['status'] in ('ok', 'undef') and cur is not None:
            reps = job['leak']
            for _ in range(3):
                Run(T, job, shim).run()
            CUR = r = None
            gc.collect()
            a = cur()
            for _ in range(reps):
                Run(T, job, shim).run()
            CUR = None
            gc.collect()
            b = cur()
            if b - a >= reps * 8:
                res = {'status': 'leak', 'msg': '%d bytes are lost by each run' % ((b - a) // reps)}
        CUR = None
        r = None
        out.update(res)
        print(json.dumps(out), flush=True)


if __name__ == '__main__':
    main()
