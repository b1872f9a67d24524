"""Reference model of the Unsafe, ASM and SIMD classes over blocks of bytes (None: not specified)."""
from .spec import SpecErr, Undefined, NONE, CONV, text

M64 = (1 << 64) - 1
ELEM = {'Int': 4, 'UnsignedInt': 4, 'Long': 8, 'UnsignedLong': 8, 'LongLong': 8, 'UnsignedLongLong': 8, 'Short': 2, 'UnsignedShort': 2,
        'Float': 4, 'Double': 8, 'LongDouble': 16, 'Char': 1, 'UnsignedChar': 1, 'WChar': 4, 'Char16': 2, 'Char32': 4, 'Bool': 1,
        'Int8': 1, 'UInt8': 1, 'Int16': 2, 'UInt16': 2, 'Int32': 4, 'UInt32': 4, 'Int64': 8, 'UInt64': 8, 'VoidPtr': 8, 'IntPtr': 8,
        'FloatPtr': 8, 'PyObjectPtr': 8}
SETS = {'setAVX512Vector32': (16, 4), 'setAVX512Vector16': (32, 2), 'setAVX512Vector8': (64, 1), 'setAVX2Vector32': (8, 4),
        'setAVX2Vector16': (16, 2), 'setAVX2Vector8': (32, 1)}
LIMIT = 1 << 40  # larger allocations always fail


def cpu_flags(mx, ecx, ebx, xcr):
    """what the processor and operating system offer: {method: bool} (ints or bit-vectors)"""
    if isinstance(mx, int):
        def bits(x, m):
            return x & m == m

        def ge(n):
            return mx >= n

        def both(*a):
            return all(a)
    else:
        import z3

        def bits(x, m):
            return x & m == m

        def ge(n):
            return z3.UGE(mx, n)
        both = z3.And
    avx = both(ge(7), bits(ecx, 3 << 27), bits(xcr, 6))
    return {'isSSE41Supported': both(ge(1), bits(ecx, 1 << 19)), 'isSSSE3Supported': both(ge(1), bits(ecx, 1 << 9)),
            'isAVX2Supported': both(avx, bits(ebx, 1 << 5)), 'isAVX512Supported': both(avx, bits(xcr, 0xe6), bits(ebx, 1 << 16)),
            'isArmNeonSupported': False}


def low8(x, i):
    """byte i of an integer (python int or bit-vector)"""
    if isinstance(x, int):
        return (x >> (8 * i)) & 255
    import z3
    return z3.simplify(z3.Extract(8 * i + 7, 8 * i, x))


class Mem:
    """operations on a Spec; sizes and counts are concrete, addresses are ('ptr', block, offset)"""

    def __init__(self, sp):
        self.sp = sp

    def bad(self, *names):
        raise SpecErr(*(names or CONV))

    # ---- conversions
    def size(self, v, mask=False):
        if v[0] == 'ptr':
            raise Undefined()
        if v[0] in ('int', 'bool'):
            x = int(v[1]) if isinstance(v[1], (int, bool)) else self.fork(v[1])
            if not 0 <= x <= M64:
                if mask:
                    raise Undefined()
                self.bad()
            return x
        if v[0] == 'index':
            raise Undefined()
        self.bad()

    def fork(self, e):
        """a small symbolic count: one path per value"""
        for i in range(0, 300):
            if self.sp.choose(e == i):
                return i
        if self.sp.choose(e < 0):
            return -1
        raise Undefined()

    def addr(self, v, mask=False):
        """-> ('ptr', ..) | int"""
        if v[0] == 'ptr':
            return v
        if v[0] in ('int', 'bool') and isinstance(v[1], (int, bool)):
            if not 0 <= int(v[1]) <= M64:
                if mask or -(1 << 63) <= int(v[1]) < 0:
                    raise Undefined()
                self.bad()
            return int(v[1])
        if v[0] == 'index':
            raise Undefined()
        self.bad()

    def block(self, p, n):
        if n == 0:
            return None
        if not isinstance(p, tuple):
            raise Undefined()
        h = self.sp.heap[p[1]]
        if h[0] != 'M' or not h[2] or p[2] < 0 or p[2] + n > len(h[1]):
            raise Undefined()
        return h

    def read(self, p, n):
        h = self.block(p, n)
        return h[1][p[2]:p[2] + n] if h else ()

    def write(self, p, bs):
        h = self.block(p, len(bs))
        if h:
            b = list(h[1])
            b[p[2]:p[2] + len(bs)] = bs
            self.sp.heap[p[1]] = ('M', tuple(b), True)

    def new(self, bs, align=1):
        self.sp.nid += 1
        self.sp.heap[self.sp.nid] = ('M', tuple(bs), True)
        return ('newmem', self.sp.nid, align)

    def kill(self, p):
        if not isinstance(p, tuple):
            if p == 0:
                return
            raise Undefined()
        h = self.sp.heap[p[1]]
        if h[0] != 'M' or not h[2] or p[2] != 0:
            raise Undefined()
        self.sp.heap[p[1]] = ('M', h[1], False)

    # ---- dispatch
    def call(self, cls, name, args):
        if cls == 'ASM':
            if name in ('__enter__', '__exit__'):
                raise Undefined()
            self.bad('NotImplementedError')
        if cls == 'SIMDLowAVX512':
            from . import avx512
            b = avx512.table().get(name)
            if b is None or b.kind == 'other':
                raise Undefined()
            if b.kind == 'unimpl':
                self.bad('NotImplementedError')
            if len(args) != b.nargs:
                self.bad('TypeError')
            return ('none',)
        if cls == 'SIMD':
            if name in SETS:
                return self.setvec(name, args)
            for pre, f in (('memcpy', self.simd_memcpy), ('reverse', self.simd_reverse)):
                if name.startswith(pre):
                    return f(name[len(pre):], args)
            if name in (getattr(self.sp, 'cpu', None) or {}):
                return ('bool', self.sp.cpu[name])
            if name.startswith('is'):
                return ('any',)
            raise Undefined()
        n = {'calloc': 2, 'realloc': 2, 'aligned_malloc': 2, 'get': 2, 'set': 2, 'callVoid': 1, 'callInt': 1, 'callLongLong': 1,
             'call': 3, 'memcpy': 3, 'memset': 3}.get(name)
        if n is not None and len(args) != n:
            self.bad('TypeError')
        return getattr(self, 'u_' + name)(*args)

    # ---- console
    def stream(self, n):
        if not hasattr(self.sp, 'senv') or 'mem:' + n not in self.sp.senv:
            raise Undefined()
        return self.sp.senv['mem:' + n][1]

    def u_fputs(self, t):
        if t[0] not in ('str', 'chars'):
            self.bad('TypeError')
        codes = text(t)
        if any(isinstance(c, int) and 0xd800 <= c < 0xe000 for c in codes):
            self.bad('UnicodeEncodeError')
        o = self.stream('stdout')
        bs = ()
        for c in codes:
            if self.sp.choose(c == 0):
                raise Undefined()  # C strings end there
            bs += tuple(chr(c).encode()) if isinstance(c, int) else (c,)
        self.sp.heap[o] = ('O', self.sp.heap[o][1] + bs)
        return NONE

    def u_fflush(self):
        return NONE

    def u_fgets(self, n):
        if n[0] not in ('int', 'bool'):
            self.bad('TypeError')
        n = int(n[1]) if isinstance(n[1], (int, bool)) else self.fork(n[1])
        if n <= 0 or n >= 1 << 31:
            self.bad('ValueError', 'OverflowError')
        i = self.stream('stdin')
        _, bs, end = self.sp.heap[i]
        k = 0
        while k < min(n - 1, len(bs)):
            k += 1
            if self.sp.choose(bs[k - 1] == 10):
                break
        self.sp.heap[i] = ('I', bs[k:], end)
        if k == 0 and n > 1 and end == 'error':
            self.bad('RuntimeError')
        for b in bs[:k]:
            if self.sp.choose(b == 0):
                raise Undefined()
        try:
            t = bytes(b if isinstance(b, int) else 97 for b in bs[:k]).decode()
        except UnicodeDecodeError:
            self.bad('UnicodeDecodeError')
        out, j = (), 0
        for c in t:
            out += (ord(c) if isinstance(bs[j], int) else bs[j],)
            j += len(c.encode())
        return ('chars', out)

    # ---- Unsafe
    def u_malloc(self, n):
        n = self.size(n)
        if n > LIMIT:
            self.bad('MemoryError')
        return self.new([None] * n, 16 if n >= 16 else 1)

    def u_calloc(self, a, b):
        n = self.size(a, True) * self.size(b, True)
        if n > LIMIT:
            self.bad('MemoryError')
        return self.new([0] * n, 16 if n >= 16 else 1)

    def u_realloc(self, p, n):
        p, n = self.addr(p, True), self.size(n, True)
        if n > LIMIT:
            self.bad('MemoryError')
        if isinstance(p, tuple):
            h = self.sp.heap[p[1]]
            old = h[1] if h[0] == 'M' else ()
        else:
            old = ()
        self.kill(p)
        return self.new((tuple(old) + (None,) * n)[:n])

    def u_free(self, p):
        self.kill(self.addr(p))
        return NONE

    def u_aligned_free(self, p):
        return self.u_free(p)

    def u_aligned_malloc(self, n, al):
        n, al = self.size(n, True), self.size(al, True)
        if n > LIMIT:
            self.bad('MemoryError')
        if al == 0 or al & (al - 1):
            raise Undefined()
        return self.new([None] * n, al)

    def u_get(self, p, n):
        p, n = self.addr(p, True), self.size(n, True)
        if n >= 1 << 63:
            raise Undefined()
        return ('bytes', tuple(self.read(p, n)))

    def u_set(self, p, b):
        p = self.addr(p, True)
        if b[0] != 'bytes':
            self.bad('TypeError')
        self.write(p, tuple(b[1]))
        return NONE

    def u_memcpy(self, a, b, n):
        for v in (a, b, n):
            if v[0] not in ('ptr', 'int', 'bool'):
                self.bad()
        n, a, b = self.size(n), self.addr(a), self.addr(b)
        if n and isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1] and abs(a[2] - b[2]) < n:
            raise Undefined()
        self.write(b, tuple(self.read(a, n)))
        return NONE

    def u_memset(self, p, v, n):
        for x in (p, n):
            if x[0] not in ('ptr', 'int', 'bool'):
                self.bad()
        if v[0] not in ('int', 'bool'):
            if v[0] == 'index':
                raise Undefined()
            self.bad()
        x = v[1]
        if isinstance(x, (int, bool)):
            if not -(1 << 63) <= x < 1 << 63:
                self.bad()
        else:
            from .spec import And_
            if not self.sp.choose(And_(x >= -(1 << 63), x < 1 << 63)):
                self.bad()
        n, p = self.size(n), self.addr(p)
        self.write(p, (low8(x, 0),) * n)
        return NONE

    def func(self, v):
        if v[0] == 'fn':
            return v
        if v[0] in ('int', 'bool', 'ptr', 'index'):
            if v[0] == 'int' and isinstance(v[1], int) and not -(1 << 63) <= v[1] <= M64:
                self.bad()
            raise Undefined()
        self.bad()

    def called(self, f):
        h = self.sp.heap[f[1]]
        self.sp.heap[f[1]] = ('F', h[1], h[2] + 1)
        return h[1]

    def sx(self, v, bits):
        """the signed value of the low bits of a result"""
        if isinstance(v, int):
            v &= (1 << bits) - 1
            return v - (1 << bits) if v >> (bits - 1) else v
        import z3
        return z3.SignExt(96 - bits, z3.Extract(bits - 1, 0, v))

    def u_callVoid(self, f):
        self.called(self.func(f))
        return NONE

    def u_callInt(self, f):
        return ('int', self.sx(self.called(self.func(f))[1], 32))

    def u_callLongLong(self, f):
        return ('int', self.sx(self.called(self.func(f))[1], 64))

    def u_call(self, f, p, n):
        for x in (p, n):
            if x[0] not in ('ptr', 'int', 'bool'):
                self.bad()
        f, n, p = self.func(f), self.size(n), self.addr(p)
        if n:
            self.block(p, n)
        r = self.called(f)
        if n == 0:
            return NONE
        if n <= 8:
            if r[0] != 'int':
                raise Undefined()
            self.write(p, tuple(low8(r[1], i) for i in range(n)))
        else:
            if r[0] != 'ptr' or isinstance(p, tuple) and p[1] == r[1]:
                raise Undefined()
            self.write(p, tuple(self.read(r, n)))
        return NONE

    def u_get_address(self, o):
        return ('addrof', o)

    def u_as_object(self, a):
        if a[0] == 'addr':
            return a[1]
        if a[0] == 'int' and a[1] == 0:
            self.bad('ValueError')
        if a[0] in ('int', 'ptr', 'bool', 'index'):
            if a[0] == 'int' and isinstance(a[1], int) and not -(1 << 63) <= a[1] <= M64:
                self.bad()
            raise Undefined()
        self.bad()

    def u_incref(self, o):
        return NONE

    def u_decref(self, o):
        return NONE

    def u_refcnt(self, o):
        return ('refcnt', o)

    # ---- SIMD
    def setvec(self, name, args):
        n, w = SETS[name]
        if len(args) != n + 1:
            self.bad('TypeError')
        bad = args[0][0] not in ('ptr', 'int', 'bool')
        for a in args[1:]:
            if a[0] not in ('int', 'bool'):
                bad = True
            elif isinstance(a[1], int):
                if not -(1 << 63) <= a[1] < 1 << 63:
                    bad = True
                elif not -(1 << 8 * w - 1) <= a[1] < 1 << 8 * w - 1:
                    raise Undefined()
        if bad:
            self.bad()
        p = self.addr(args[0])
        bs = []
        for a in reversed(args[1:]):
            bs += [low8(a[1], i) for i in range(w)]
        self.write(p, tuple(bs))
        return NONE

    def simd_memcpy(self, ty, args):
        if ty.endswith('Aligned'):
            ty = ty[:-7]
        if ty not in ELEM:
            raise Undefined()
        if len(args) != 3:
            self.bad('TypeError')
        for x in args:
            if x[0] not in ('ptr', 'int', 'bool'):
                self.bad()
        n = self.size(args[2])
        for x in args[:2]:
            if x[0] == 'int' and isinstance(x[1], int) and -(1 << 63) <= x[1] < 0:
                raise Undefined()
        a, b = self.addr(args[0]), self.addr(args[1])
        k = ELEM[ty]
        if n * k and isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1] and abs(a[2] - b[2]) < n * k:
            raise Undefined()
        src = list(self.read(a, n * k))
        if ty == 'LongDouble':  # the padding of each element carries no value
            src = [None if i % 16 >= 10 else x for i, x in enumerate(src)]
        self.write(b, tuple(src))
        return NONE

    def simd_reverse(self, ty, args):
        if ty not in ELEM:
            raise Undefined()
        if len(args) != 2:
            self.bad('TypeError')
        for x in args:
            if x[0] not in ('ptr', 'int', 'bool'):
                self.bad()
        n, p = self.size(args[1]), self.addr(args[0])
        k = ELEM[ty]
        bs = list(self.read(p, n * k))
        if ty == 'LongDouble':
            bs = [None if i % 16 >= 10 else x for i, x in enumerate(bs)]
        self.write(p, tuple(x for i in range(n) for x in bs[k * (n - 1 - i):k * (n - i)]))
        return NONE
