"""Reference model: what the built-in list (and iterator) would do, over values that are python ints or solver terms.

The same code runs symbolically (choose forks the path) and concretely (choose is bool), so the model itself is
validated against the real built-in list (see selftest.py)."""

SSIZE_MAX = (1 << 63) - 1
SSIZE_MIN = -(1 << 63)
I32 = (-(1 << 31), (1 << 31) - 1)
I64 = (-(1 << 63), (1 << 63) - 1)


class SpecErr(Exception):
    def __init__(self, *names):
        Exception.__init__(self, names)
        self.names = names


BIG = 20000  # lists up to here fit into memory


class Undefined(Exception):
    """the documentation leaves this behaviour open: the path is dropped"""


CONV = ('TypeError', 'RuntimeError', 'OverflowError', 'SystemError', 'ValueError')
NONE = ('none',)
INTLISTS = {'IntArrayList': I32, 'BigIntArrayList': I64, 'IntLinkedList': I32}
LISTS = ('IntArrayList', 'BigIntArrayList', 'IntLinkedList', 'ObjectArrayList', 'ObjectLinkedList', 'list')


def And_(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    import z3
    return z3.And(*[x if not isinstance(x, bool) else z3.BoolVal(x) for x in xs])


def Or_(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    import z3
    return z3.Or(*xs)


def is_symbool(x):
    return type(x).__name__ == 'BoolRef'


def Not_(x):
    import z3
    return z3.Not(x)


def text(a):
    """character codes of a string value"""
    return tuple(map(ord, a[1])) if a[0] == 'str' else a[1]


def decimal(choose, V, signed=True):
    """decimal digits (bytes) of a bit-vector: decides its sign and its number of digits"""
    import z3
    out = []
    w = V.size()
    if signed and choose(V < 0):
        out.append(45)
        V = z3.simplify(-V)
    nd = 1
    while nd < len(str(1 << w)):
        if choose(z3.ULT(V, z3.BitVecVal(10 ** nd, w))):
            break
        nd += 1
    for k in range(nd - 1, -1, -1):
        d = z3.URem(z3.UDiv(V, z3.BitVecVal(10 ** k, w)), z3.BitVecVal(10, w))
        b = z3.simplify(z3.Extract(7, 0, d) + 48)
        out.append(b.as_long() if z3.is_bv_value(b) else b)
    return out


class Spec:
    two = None
    """heap: id -> ('L', type, items tuple, mod) | ('I', listid, pos, dir, done)"""

    def __init__(self, choose, ranks, heap=None, nid=0, concretize=None):
        self.choose = choose
        self.ranks = ranks  # object name -> rank expression
        self.heap = heap if heap is not None else {}
        self.nid = nid
        self.concretize = concretize

    # ---------- values
    def new(self, v):
        self.nid += 1
        self.heap[self.nid] = v
        return ('ref', self.nid)

    def items(self, v):
        """elements of a list-like value"""
        if v[0] == 'ref':
            h = self.heap[v[1]]
            if h[0] == 'L':
                return h[2]
        if v[0] in ('list', 'tuple'):
            return tuple(v[1])
        return None

    def eq(self, a, b):
        """python == on scalar values, as a condition"""
        num = {'int': lambda x: x[1], 'bool': lambda x: x[1]}
        if a[0] in num and b[0] in num:
            x, y = a[1], b[1]
            for p, q in ((x, y), (y, x)):       # a report that depends on the processor
                if is_symbool(p):
                    return p == q if is_symbool(q) else p if q == 1 else Not_(p) if q == 0 else False
            if isinstance(x, bool):
                x = int(x)
            if isinstance(y, bool):
                y = int(y)
            return x == y
        if a[0] == 'float' and b[0] in num:
            return float(a[1]) == b[1] if isinstance(b[1], int) else (
                b[1] == int(a[1]) if float(a[1]).is_integer() else False)
        if b[0] == 'float' and a[0] in num:
            return self.eq(b, a)
        if a[0] == 'obj' and b[0] == 'obj':
            if a[1] == b[1]:
                return True
            return self.ranks[a[1]] == self.ranks[b[1]]
        if 'dbl' in (a[0], b[0]) and a[0] in ('dbl', 'float') and b[0] in ('dbl', 'float'):
            return self.dbl(a) == self.dbl(b)
        if 'chars' in (a[0], b[0]) and a[0] in ('chars', 'str') and b[0] in ('chars', 'str'):
            x, y = text(a), text(b)
            return And_(*[p == q for p, q in zip(x, y)]) if len(x) == len(y) else False
        if a[0] != b[0]:
            return False
        if a[0] == 'none':
            return True
        if a[0] in ('list', 'tuple'):
            if len(a[1]) != len(b[1]):
                return False
            return And_(*[self.eq(x, y) for x, y in zip(a[1], b[1])])
        if a[0] == 'ref':
            if a[1] == b[1]:
                return True
        return a == b

    def lt(self, a, b):
        if a[0] in ('int', 'bool') and b[0] in ('int', 'bool'):
            return a[1] < b[1]
        if a[0] == 'obj' and b[0] == 'obj':
            return self.ranks[a[1]] < self.ranks[b[1]]
        if a[0] in ('dbl', 'float') and b[0] in ('dbl', 'float'):
            return self.dbl(a) < self.dbl(b)
        if a[0] in ('chars', 'str') and b[0] in ('chars', 'str'):
            x, y = text(a), text(b)
            r = len(x) < len(y)
            for p, q in reversed(list(zip(x, y))):
                r = Or_(p < q, And_(p == q, r))
            return r
        if a[0] == b[0] == 'tuple':
            for x, y in zip(a[1], b[1]):
                if not self.choose(self.eq(x, y)):
                    return self.lt(x, y)
            return len(a[1]) < len(b[1])
        raise SpecErr('TypeError')

    def dbl(self, a):
        """integer in the order of the doubles"""
        b = a[1]
        if a[0] == 'float':
            import struct
            b = struct.unpack('<Q', struct.pack('<d', float(b)))[0]
        if isinstance(b, int):
            m = b & (1 << 63) - 1
            if m > 0x7ff << 52:
                raise Undefined()
            return -m if b >> 63 else m
        import z3
        m = z3.ZeroExt(33, z3.Extract(62, 0, b))
        if self.choose(m > 0x7ff << 52):
            raise Undefined()
        return z3.If(z3.Extract(63, 63, b) == 1, -m, m)

    def same(self, a, b):
        """result equality: same value (same object for user objects)"""
        if a[0] == 'obj' or b[0] == 'obj':
            return a == b
        if a[0] != b[0]:
            return False
        return self.eq(a, b)

    # ---------- element conversion
    def elem(self, ty, v, loose=False):
        """value v stored into a list of type ty"""
        r = INTLISTS.get(ty)
        if r is None:
            return v
        if v[0] == 'bool':
            v = ('int', int(v[1]) if isinstance(v[1], bool) else v[1])
        if v[0] == 'index':
            v = ('int', v[1])
        if v[0] != 'int':
            raise SpecErr(*CONV)
        x = v[1]
        if not self.choose(And_(x >= r[0], x <= r[1])):
            raise Undefined()
        return v

    def as_index(self, v):
        if v[0] == 'int':
            return v[1]
        if v[0] == 'bool':
            return int(v[1])
        if v[0] == 'index':
            return v[1]
        raise SpecErr('TypeError')

    def pos(self, e, n):
        """normalise an index; -> position or None"""
        for i in range(n):
            if self.choose(Or_(e == i, e == i - n)):
                return i
        return None

    def clamp(self, e, n):
        """list.insert / slice style clamping to 0..n"""
        for i in range(n):
            if i == 0:
                if self.choose(Or_(e == 0, e <= -n)):
                    return 0
            elif self.choose(Or_(e == i, e == i - n)):
                return i
        if n == 0:
            return 0
        if self.choose(e >= n):
            return n
        raise AssertionError('clamp')

    def slice_idx(self, sl, n):
        """-> (start, stop, step, length); sl = ('slice', a, b, c)"""
        def val(x):
            return None if x[0] == 'none' else self.as_index(x)
        step = val(sl[3])
        if step is None:
            step = 1
        if not isinstance(step, int):
            for k in range(-4, 5):
                if self.choose(step == k):
                    step = k
                    break
            else:
                if self.choose(step > 0):
                    step = 1 << 40
                else:
                    step = -(1 << 40)
        if step == 0:
            raise SpecErr('ValueError')
        start, stop = val(sl[1]), val(sl[2])
        lo, hi = (0, n) if step > 0 else (-1, n - 1)

        def cl(e):
            for i in range(0, n):
                if self.choose(Or_(e == i, e == i - n)):
                    return i if step > 0 or True else i
            if self.choose(e < 0):
                return lo
            return hi
        a = (lo if step > 0 else hi) if start is None else cl(start)
        b = (hi if step > 0 else lo) if stop is None else cl(stop)
        ln = len(range(a, b, step))
        return a, b, step, ln

    # ---------- iteration over any value
    def iterate(self, v):
        """-> (items, error or None)"""
        if v[0] == 'ref':
            h = self.heap[v[1]]
            if h[0] == 'L':
                return h[2], None
            out = []
            while True:
                try:
                    out.append(self.next(v))
                except SpecErr as e:
                    if e.names == ('StopIteration',):
                        return tuple(out), None
                    return tuple(out), e
        if v[0] in ('list', 'tuple'):
            return tuple(v[1]), None
        if v[0] == 'str':
            return tuple(('str', c) for c in v[1]), None
        if v[0] in ('iterable', 'seq'):
            if v[2].get('iter_raises'):
                return (), SpecErr('UserError')
            if v[2].get('len_raises') or v[2].get('hint') == 'raise':
                return None, SpecErr('UserError')
            if v[2].get('end') == 'raise':
                return tuple(v[1]), SpecErr('UserError')
            return tuple(v[1]), None
        raise SpecErr('TypeError')

    def set(self, v, items):
        h = self.heap[v[1]]
        self.heap[v[1]] = ('L', h[1], tuple(items), h[3] + 1)

    # ---------- iterators
    def next(self, it):
        h = self.heap[it[1]]
        _, lid, pos, d, done = h
        if done:
            raise SpecErr('StopIteration')
        L = self.heap[lid]
        items = L[2]
        if d > 0:
            if pos < len(items):
                self.heap[it[1]] = ('I', lid, pos + 1, d, False)
                return items[pos]
        else:
            if 0 <= pos < len(items):
                self.heap[it[1]] = ('I', lid, pos - 1, d, False)
                return items[pos]
        self.heap[it[1]] = ('I', lid, pos, d, True)
        raise SpecErr('StopIteration')

    def compare(self, a, b, op):
        """element-wise list comparison -> bool condition or NotImplemented"""
        x, y = self.items(a), self.items(b)
        for i in range(min(len(x), len(y))):
            if not self.choose(self.eq(x[i], y[i])):
                p, q = x[i], y[i]
                if op == 'eq':
                    return ('bool', False)
                if op == 'ne':
                    return ('bool', True)
                r = {'lt': lambda: self.lt(p, q), 'gt': lambda: self.lt(q, p), 'le': lambda: self.lt(p, q),
                     'ge': lambda: self.lt(q, p)}[op]()
                return ('bool', self.choose(r))
        n, m = len(x), len(y)
        return ('bool', {'eq': n == m, 'ne': n != m, 'lt': n < m, 'le': n <= m, 'gt': n > m, 'ge': n >= m}[op])

    def sorted(self, items, key=None, reverse=False):
        """stable sort"""
        ks = [key(x) if key else x for x in items]
        out = []
        seq = list(zip(ks, items))
        if reverse:
            seq = seq[::-1]
        if len(seq) > 64 and all(k[0] == 'int' and isinstance(k[1], int) for k in ks):
            out, seq = sorted(seq, key=lambda e: e[0][1]), ()
        for k, x in seq:
            j = len(out)
            while j > 0 and self.choose(self.lt(k, out[j - 1][0])):
                j -= 1
            out.insert(j, (k, x))
        r = [x for _, x in out]
        return r[::-1] if reverse else r

    def find(self, items, v, lo, hi):
        for i in range(lo, hi):
            if self.choose(self.eq(items[i], v)):
                return i
        return None

    # ---------- the operations.  Return a value or raise SpecErr
    def op_new(self, ty, args, kw):
        if kw:
            raise Undefined()
        if ty == 'list':
            its, err = self.iterate(args[0]) if args else ((), None)
            if err:
                raise err
            return self.new(('L', ty, tuple(its), 0))
        r = self.new(('L', ty, (), 0))
        its = ()
        if len(args) > 2:
            raise SpecErr('TypeError')
        if len(args) == 2 and (args[1][0] not in ('int', 'bool', 'index') or 'Linked' in ty):
            raise SpecErr('TypeError')
        if len(args) == 1 and args[0][0] in ('int', 'bool') and 'Linked' in ty:
            raise SpecErr('TypeError')
        if args and args[0][0] == 'iterable' and args[0][2].get('hint') == 'raise':
            raise Undefined()  # a constructor need not ask for the hint
        if len(args) == 2:
            x = args[1][1]
            if not self.choose(And_(x >= SSIZE_MIN, x <= (BIG if isinstance(x, int) else 64))):
                if self.choose(And_(x <= SSIZE_MAX, x >= 0)):
                    raise Undefined()  # as much as memory allows
                raise SpecErr('OverflowError', 'MemoryError', 'RuntimeError', 'ValueError')
        if args:
            if args[0][0] in ('int', 'bool'):
                x = args[0][1]
                if len(args) == 2:
                    raise Undefined()
                if isinstance(x, int) and -(1 << 63) <= x < 4096:
                    return r
                if isinstance(x, int):
                    raise SpecErr('OverflowError', 'MemoryError', 'RuntimeError', 'ValueError')
                if self.choose(And_(x >= SSIZE_MIN, x <= 64)):
                    return r
                if self.choose(And_(x <= SSIZE_MAX, x >= 0)):
                    raise Undefined()
                raise SpecErr('OverflowError', 'MemoryError', 'RuntimeError', 'ValueError')
            its, err = self.iterate(args[0])
            out = [self.elem(ty, x) for x in (its or ())]
            if err:
                raise SpecErr(*(err.names + CONV))
            self.set(r, out)
        return r

    def op_len(self, a):
        return ('int', len(self.items(a)))

    def op_getitem(self, a, k):
        its = self.items(a)
        if k[0] == 'slice':
            s, e, st, n = self.slice_idx(k, len(its))
            return ('list', tuple(its[s + i * st] for i in range(n)))
        i = self.pos(self.as_index(k), len(its))
        if i is None:
            raise SpecErr('IndexError')
        return its[i]

    def op_setitem(self, a, k, v):
        its = list(self.items(a))
        ty = self.heap[a[1]][1]
        if k[0] == 'slice':
            s, e, st, n = self.slice_idx(k, len(its))
            if v[0] == 'iterable':
                raise Undefined()  # documented for sequences only
            if st != 1 and ty not in ('list', 'ObjectLinkedList'):
                raise SpecErr('NotImplementedError', 'ValueError', 'TypeError')
            new, err = self.iterate(v)
            new = [self.elem(ty, x) for x in (new or ())]
            if err:
                raise SpecErr(*(err.names + CONV))
            if st != 1:
                if len(new) != n:
                    raise SpecErr('ValueError')
                for i in range(n):
                    its[s + i * st] = new[i]
                self.set(a, its)
                return NONE
            if e < s:
                e = s
            its[s:e] = new
            self.set(a, its)
            return NONE
        e = self.as_index(k)
        i = self.pos(e, len(its))
        if i is None:
            if v[0] not in ('int', 'bool') and ty in INTLISTS:
                raise SpecErr('IndexError', *CONV)
            raise SpecErr('IndexError')
        its[i] = self.elem(ty, v)
        self.set(a, its)
        return NONE

    def op_delitem(self, a, k):
        its = list(self.items(a))
        if k[0] == 'slice':
            s, e, st, n = self.slice_idx(k, len(its))
            ty = self.heap[a[1]][1]
            if st != 1 and ty != 'list':
                raise SpecErr('NotImplementedError', 'ValueError', 'TypeError')
            for p in sorted((s + i * st for i in range(n)), reverse=True):
                del its[p]
            self.set(a, its)
            return NONE
        i = self.pos(self.as_index(k), len(its))
        if i is None:
            raise SpecErr('IndexError')
        del its[i]
        self.set(a, its)
        return NONE

    def op_contains(self, a, v):
        its = self.items(a)
        return ('bool', self.find(its, v, 0, len(its)) is not None)

    def op_append(self, a, v):
        ty = self.heap[a[1]][1]
        self.set(a, self.items(a) + (self.elem(ty, v),))
        return NONE

    def op_extend(self, a, v):
        ty = self.heap[a[1]][1]
        src, err = self.iterate(v)
        if src is None:
            raise err
        for x in src:
            try:
                e = self.elem(ty, x)
            except SpecErr as e2:
                raise e2
            self.set(a, self.items(a) + (e,))
        if err:
            raise err
        return NONE

    def op_pop(self, a, k=None):
        its = list(self.items(a))
        if k is not None and k[0] == 'index':
            raise Undefined()
        if not its:
            if k is not None and k[0] not in ('int', 'bool', 'index'):
                raise SpecErr('IndexError', 'TypeError')
            if k is not None:
                raise SpecErr('IndexError', 'OverflowError')
            raise SpecErr('IndexError')
        if k is None:
            i = len(its) - 1
        else:
            e = self.as_index(k)
            if not self.choose(And_(e >= SSIZE_MIN, e <= SSIZE_MAX)):
                raise SpecErr('IndexError', 'OverflowError')
            i = self.pos(e, len(its))
            if i is None:
                raise SpecErr('IndexError')
        v = its.pop(i)
        self.set(a, its)
        return v

    def op_insert(self, a, k, v):
        its = list(self.items(a))
        ty = self.heap[a[1]][1]
        e = self.as_index(k)
        if not self.choose(And_(e >= SSIZE_MIN, e <= SSIZE_MAX)):
            raise SpecErr('OverflowError', *CONV)
        x = self.elem(ty, v)
        its.insert(self.clamp(e, len(its)), x)
        self.set(a, its)
        return NONE

    def op_remove(self, a, v):
        its = list(self.items(a))
        i = self.find(its, v, 0, len(its))
        if i is None:
            if v[0] in ('int', 'bool', 'obj', 'none') or self.heap[a[1]][1] not in INTLISTS:
                raise SpecErr('ValueError', *(('OverflowError',) if self.heap[a[1]][1] in INTLISTS and
                                              self.outside(a, v) else ()))
            raise SpecErr('ValueError', 'TypeError')
        del its[i]
        self.set(a, its)
        return NONE

    def outside(self, a, v):
        """value not representable in the list's element type (converting it may report overflow)"""
        r = INTLISTS.get(self.heap[a[1]][1])
        if r is None or v[0] not in ('int', 'bool'):
            return r is not None
        return not self.choose(And_(v[1] >= r[0], v[1] <= r[1]))

    def op_index(self, a, v, s=None, e=None):
        its = self.items(a)
        n = len(its)
        lo = 0 if s is None else self.as_index(s)
        hi = n if e is None else self.as_index(e)
        for b in (lo, hi):
            if not self.choose(And_(b >= SSIZE_MIN, b <= SSIZE_MAX)):
                raise Undefined()
        lo = self.clamp(lo, n)
        hi = self.clamp(hi, n)
        i = self.find(its, v, lo, hi)
        if i is None:
            if self.heap[a[1]][1] in INTLISTS:
                if v[0] not in ('int', 'bool'):
                    raise SpecErr('ValueError', 'TypeError')
                if self.outside(a, v):
                    raise SpecErr('ValueError', 'OverflowError')
            raise SpecErr('ValueError')
        return ('int', i)

    def op_count(self, a, v):
        if self.heap[a[1]][1] in INTLISTS:
            if v[0] not in ('int', 'bool'):
                if any(self.choose(self.eq(x, v)) for x in self.items(a)):
                    raise Undefined()
                return ('anyof', ('int', 0), ('err', 'TypeError'))
            if self.outside(a, v):
                return ('anyof', ('int', 0), ('err', 'OverflowError'))
        c = 0
        for x in self.items(a):
            if self.choose(self.eq(x, v)):
                c += 1
        return ('int', c)

    def op_reverse(self, a):
        self.set(a, self.items(a)[::-1])
        return NONE

    def op_clear(self, a):
        self.set(a, ())
        return NONE

    def op_copy(self, a):
        h = self.heap[a[1]]
        return self.new(('L', h[1], h[2], 0))

    def op_to_list(self, a):
        return ('list', tuple(self.items(a)))

    def op_tolist(self, a):
        its, err = self.iterate(a)
        if err:
            raise err
        return ('list', tuple(its))

    def op_add(self, a, b):
        h = self.heap[a[1]]
        if h[1] == 'list':
            raise Undefined()
        if self.items(b) is None and b[0] not in ('iterable', 'seq'):
            raise SpecErr('TypeError', 'ValueError')
        if b[0] == 'list':
            # list operands give a list
            return ('list', h[2] + tuple(b[1]))
        if b[0] != 'ref' or self.heap[b[1]][1] != h[1]:
            raise Undefined()
        out = self.items(b)
        return self.new(('L', h[1], h[2] + tuple(out), 0))

    def op_iadd(self, a, b):
        if b[0] not in ('ref', 'list', 'tuple', 'iterable', 'seq', 'str'):
            raise SpecErr('TypeError')
        self.op_extend(a, b)
        return a

    def rep(self, k):
        e = self.as_index(k)
        if not self.choose(And_(e >= SSIZE_MIN, e <= SSIZE_MAX)):
            raise SpecErr('OverflowError')
        if not self.choose(e > 0):
            return 0
        for i in range(1, 5):
            if self.choose(e == i):
                return i
        return e

    def op_mul(self, a, k):
        n = self.rep(k)
        h = self.heap[a[1]]
        if not isinstance(n, int) or n > 64 and n * len(h[2]) > BIG:
            if not h[2]:
                n = 0
            else:
                if h[1] == 'IntLinkedList' or h[1] == 'ObjectLinkedList' or self.choose(n < (1 << 36)):
                    raise Undefined()  # as many nodes as memory allows
                raise SpecErr('MemoryError', 'OverflowError', 'RuntimeError')
        return self.new(('L', h[1], h[2] * n, 0))

    op_rmul = op_mul

    def op_imul(self, a, k):
        n = self.rep(k)
        h = self.heap[a[1]]
        if not isinstance(n, int) or n > 64 and n * len(h[2]) > BIG:
            if not h[2]:
                n = 0
            else:
                if h[1] == 'IntLinkedList' or h[1] == 'ObjectLinkedList' or self.choose(n < (1 << 36)):
                    raise Undefined()  # as many nodes as memory allows
                raise SpecErr('MemoryError', 'OverflowError', 'RuntimeError')
        self.set(a, h[2] * n)
        return a

    def st_from_range(self, ty, *args):
        if not 1 <= len(args) <= 3:
            raise SpecErr('TypeError')
        v = [self.as_index(x) for x in args]
        for x in v:
            if not self.choose(And_(x >= SSIZE_MIN, x <= SSIZE_MAX)):
                raise SpecErr('OverflowError', 'ValueError')
        a, b, c = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], 1) if len(v) == 2 else v
        if self.choose(c == 0):
            raise SpecErr('ValueError')
        up = self.choose(c > 0)
        out = []
        while self.choose(a + len(out) * c < b if up else a + len(out) * c > b):
            if len(out) >= (8 if any(not isinstance(x, int) for x in (a, b, c)) else 4096):
                raise Undefined()  # beyond the bound
            out.append(self.elem(ty, ('int', a + len(out) * c)))
        return self.new(('L', ty, tuple(out), 0))

    def text(self, v, width, seen=()):
        if v[0] == 'ref':
            h = self.heap[v[1]]
            if v[1] in seen:
                return list(b'[...]')
            width = {'BigIntArrayList': 64, 'IntArrayList': 32, 'IntLinkedList': 32}.get(h[1], 0)
            out = [91]
            for i, x in enumerate(h[2]):
                out += ([44, 32] if i else []) + self.text(x, width, seen + (v[1],))
            return out + [93]
        if v[0] == 'int':
            if isinstance(v[1], int):
                return list(str(v[1]).encode())
            import z3
            if not width:
                raise Undefined()
            x = z3.Extract(width - 1, 0, v[1])
            return decimal(self.choose, z3.simplify(z3.SignExt(64 - width, x) if width < 64 else x))
        if v[0] == 'none':
            return list(b'None')
        if v[0] == 'obj':
            return list(b'<%s>' % v[1].encode())
        if v[0] == 'str':
            return list(repr(v[1]).encode())
        raise Undefined()

    def op_repr(self, a):
        out = self.text(a, 0)
        if all(isinstance(b, int) for b in out):
            return ('str', bytes(out).decode())
        return ('strx', tuple(out))

    op_str = op_repr

    def op_resize(self, a, k):
        if k[0] not in ('int', 'bool'):
            raise SpecErr('TypeError')
        e = k[1]
        h = self.heap[a[1]]
        if self.choose(e < 0):
            raise SpecErr('ValueError', 'OverflowError')
        for n in (e,) if isinstance(e, int) and e <= BIG else range(0, 6):
            if self.choose(e == n):
                fill = ('int', 0) if h[1] in INTLISTS else NONE
                self.set(a, h[2][:n] if n <= len(h[2]) else h[2] + (fill,) * (n - len(h[2])))
                return NONE
        if self.choose(e < (1 << 36)):
            raise Undefined()
        raise SpecErr('OverflowError', 'MemoryError', 'RuntimeError', 'ValueError')

    def op_cmp(self, a, b, op):
        t = self.heap[a[1]][1]
        if self.items(b) is None:
            if op in ('eq', 'ne'):
                return ('bool', op == 'ne')
            raise Undefined()
        if b[0] == 'tuple':
            raise Undefined()
        if t in INTLISTS and op not in ('eq', 'ne') and any(x[0] not in ('int', 'bool') for x in self.items(b)):
            raise Undefined()
        return self.compare(a, b, op)

    def op_iter(self, a):
        if self.heap[a[1]][0] == 'I':
            return a
        return self.new(('I', a[1], 0, 1, False))

    def op_reversed(self, a):
        return self.new(('I', a[1], len(self.items(a)) - 1, -1, False))

    def op_next(self, a):
        return self.next(a)

    def op_sort(self, a, key=None, reverse=False):
        h = self.heap[a[1]]
        if self.two is not None and key is None:
            # elements are known to be one of two values: the sorted list in closed form
            import z3
            lo, hi = self.two
            n = len(h[2])
            bs = [z3.simplify(x[1] == hi) if not isinstance(x[1], int) else z3.BoolVal(x[1] == hi) for x in h[2]]
            for i in range(n):  # sort the truth values by exchanging neighbours
                for j in range(i % 2, n - 1, 2):
                    bs[j], bs[j + 1] = z3.And(bs[j], bs[j + 1]), z3.Or(bs[j], bs[j + 1])
            out = [('int', z3.If(b, z3.BitVecVal(hi, 96), z3.BitVecVal(lo, 96))) for b in bs]
            self.set(a, tuple(out[::-1] if reverse else out))
            return NONE
        self.set(a, self.sorted(h[2], key, reverse))
        return NONE

    def op_sort_kw(self, a, kw, senv):
        rev = kw.pop('reverse', ('bool', False))
        key = kw.pop('key', NONE)
        if kw:
            raise SpecErr('TypeError')
        if rev[0] not in ('bool', 'int', 'none'):
            raise Undefined()
        rev = bool(rev[1]) if len(rev) > 1 else False
        if key[0] == 'none':
            return self.op_sort(a, None, rev)
        if key[0] != 'fn':
            if not self.items(a):
                return ('anyof', NONE, ('err', 'TypeError'))
            raise SpecErr('TypeError')
        beh = key[1]
        k = beh['key']
        f = {'ident': lambda x: x, 'none': lambda x: NONE, 'const': lambda x: ('int', 7),
             'pair': lambda x: ('tuple', (('int', x[1] >> 1), ('int', -x[1]))), 'dbl': lambda x: ('float', -x[1] / 2),
             'text': lambda x: ('str', str(x[1])),
             'neg': lambda x: ('int', -x[1]), 'half': lambda x: ('int', x[1] >> 1),
             'table': lambda x: senv[beh['pre'] + x[1]]}[k]
        return self.op_sort(a, f, rev)
