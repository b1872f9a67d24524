"""LLVM intrinsics."""
import re
import z3
from z3 import BitVecVal, If, Not, And, Or, Extract, Concat, ZeroExt, SignExt
from .core import tobv, tobool, norm, sext_int, Bug, Unsupported, PathEnd
from .ir import UNDEF, iw, size_of

IGNORE = ('llvm.lifetime.', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.dbg.', 'llvm.donothing',
          'llvm.invariant.', 'llvm.x86.sse2.pause', 'llvm.pseudoprobe', 'llvm.stackrestore')


def fx(st, v, w):
    return st.fresh('undef', w) if v is UNDEF else v


def scalar2(op, w):
    mask = (1 << w) - 1

    def f(a, b):
        if isinstance(a, int) and isinstance(b, int):
            if op == 'smax':
                return a if sext_int(a, w) >= sext_int(b, w) else b
            if op == 'smin':
                return a if sext_int(a, w) <= sext_int(b, w) else b
            if op == 'umax':
                return max(a, b)
            if op == 'umin':
                return min(a, b)
            if op == 'usub.sat':
                return max(a - b, 0)
            if op == 'uadd.sat':
                return min(a + b, mask)
            if op == 'sadd.sat':
                return max(min(sext_int(a, w) + sext_int(b, w), mask >> 1), -(mask >> 1) - 1) & mask
            if op == 'ssub.sat':
                return max(min(sext_int(a, w) - sext_int(b, w), mask >> 1), -(mask >> 1) - 1) & mask
        A, B = tobv(a, w), tobv(b, w)
        if op == 'smax':
            return norm(If(A >= B, A, B))
        if op == 'smin':
            return norm(If(A <= B, A, B))
        if op == 'umax':
            return norm(If(z3.UGE(A, B), A, B))
        if op == 'umin':
            return norm(If(z3.ULE(A, B), A, B))
        if op == 'usub.sat':
            return norm(If(z3.UGE(A, B), A - B, BitVecVal(0, w)))
        if op == 'uadd.sat':
            s = ZeroExt(1, A) + ZeroExt(1, B)
            return norm(If(Extract(w, w, s) == 1, BitVecVal(mask, w), Extract(w - 1, 0, s)))
        if op in ('sadd.sat', 'ssub.sat'):
            s = SignExt(1, A) + SignExt(1, B) if op[1] == 'a' else SignExt(1, A) - SignExt(1, B)
            hi = BitVecVal(mask >> 1, w)
            lo = BitVecVal(1 << (w - 1), w)
            return norm(If(s > SignExt(1, hi), hi, If(s < SignExt(1, lo), lo, Extract(w - 1, 0, s))))
        raise Unsupported(op)
    return f


def ctpop(a, w):
    if isinstance(a, int):
        return bin(a).count('1')
    r = BitVecVal(0, w)
    for i in range(w):
        r = r + ZeroExt(w - 1, Extract(i, i, a))
    return norm(r)


def ctlz(a, w):
    if isinstance(a, int):
        return w - a.bit_length()
    r = BitVecVal(w, w)
    for i in range(w):
        r = If(Extract(i, i, a) == 1, BitVecVal(w - 1 - i, w), r)
    return norm(r)


def cttz(a, w):
    if isinstance(a, int):
        return (a & -a).bit_length() - 1 if a else w
    r = BitVecVal(w, w)
    for i in range(w - 1, -1, -1):
        r = If(Extract(i, i, a) == 1, BitVecVal(i, w), r)
    return norm(r)


def bswap(a, w):
    n = w // 8
    if isinstance(a, int):
        return int.from_bytes(a.to_bytes(n, 'little'), 'big')
    return norm(Concat(*[Extract(8 * i + 7, 8 * i, a) for i in range(n)]))


def bitreverse(a, w):
    if isinstance(a, int):
        return int(bin(a)[2:].zfill(w)[::-1], 2)
    return norm(Concat(*[Extract(i, i, a) for i in range(w)]))


def fsh(left, a, b, c, w):
    if isinstance(c, int):
        c %= w
        if c == 0:
            return a if left else b
        if isinstance(a, int) and isinstance(b, int):
            big = (a << w) | b
            if left:
                return (big >> (w - c)) & ((1 << w) - 1)
            return (big >> c) & ((1 << w) - 1)
    A, B, C = tobv(a, w), tobv(b, w), z3.URem(tobv(c, w), BitVecVal(w, w))
    big = Concat(A, B)
    sh = ZeroExt(w, C)
    if left:
        return norm(Extract(2 * w - 1, w, big << sh))
    return norm(Extract(w - 1, 0, z3.LShR(big, sh)))


def overflow_op(op, w):
    def f(a, b):
        signed = op[0] == 's'
        k = op[1:4]
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sext_int(a, w), sext_int(b, w)) if signed else (a, b)
            r = x + y if k == 'add' else x - y if k == 'sub' else x * y
            m = r & ((1 << w) - 1)
            back = sext_int(m, w) if signed else m
            return (m, int(back != r))
        ext = (lambda v: SignExt(w, v)) if signed else (lambda v: ZeroExt(w, v))
        A, B = tobv(a, w), tobv(b, w)
        X, Y = ext(A), ext(B)
        r = X + Y if k == 'add' else X - Y if k == 'sub' else X * Y
        lo = {'add': A + B, 'sub': A - B, 'mul': A * B}[k]
        return (norm(lo), norm(ext(lo) != r))
    return f


def intrinsic(eng, name, types, rt):
    """-> None (no-op), str (unsupported message) or handler(st, args)"""
    for pre in IGNORE:
        if name.startswith(pre):
            return None
    b = name[5:]
    if b.startswith('memcpy.') or b.startswith('memmove.'):
        mm = b[:7].rstrip('.')

        def h(st, a):
            n = a[2]
            if not isinstance(n, int):
                n = st.concretize(n, 300, mm + ' length')
            if mm == 'memcpy' and n and isinstance(a[0], int) and isinstance(a[1], int):
                if a[0] != a[1] and abs(a[0] - a[1]) < n:
                    raise Bug('memcpy-overlap', 'memcpy of %d overlapping bytes' % n)
            if n >= 1 << 24:
                raise Unsupported('huge ' + mm)
            st.memcpy(st.resolve(a[0], n, mm) if not isinstance(a[0], int) else a[0],
                      st.resolve(a[1], n, mm) if not isinstance(a[1], int) else a[1], n, mm)
        return snapped(h)
    if b.startswith('memset.'):
        def h(st, a):
            n = a[2]
            if not isinstance(n, int):
                n = st.concretize(n, 300, 'memset length')
            if n >= 1 << 24:
                raise Unsupported('huge memset')
            if n:
                st.memset(st.resolve(a[0], n, 'memset') if not isinstance(a[0], int) else a[0], a[1], n)
        return snapped(h)
    m = re.match(r'(smax|smin|umax|umin|usub\.sat|uadd\.sat|sadd\.sat|ssub\.sat)\.', b)
    if m:
        t = rt
        w = iw(t[2]) if t[0] == 'v' else iw(t)
        f = scalar2(m.group(1), w)
        if t[0] == 'v':
            return lambda st, a: tuple(f(fx(st, x, w), fx(st, y, w)) for x, y in zip(a[0], a[1]))
        return lambda st, a: f(fx(st, a[0], w), fx(st, a[1], w))
    m = re.match(r'([su])(add|sub|mul)\.with\.overflow', b)
    if m:
        w = iw(types[0])
        f = overflow_op(m.group(1) + m.group(2), w)
        return lambda st, a: f(fx(st, a[0], w), fx(st, a[1], w))
    m = re.match(r'(ctpop|ctlz|cttz|bswap|bitreverse|abs)\.', b)
    if m:
        t = rt
        w = iw(t[2]) if t[0] == 'v' else iw(t)
        op = m.group(1)

        def one(st, x):
            x = fx(st, x, w)
            if op == 'abs':
                if isinstance(x, int):
                    return abs(sext_int(x, w)) & ((1 << w) - 1)
                return norm(If(x < 0, -x, x))
            return {'ctpop': ctpop, 'ctlz': ctlz, 'cttz': cttz, 'bswap': bswap, 'bitreverse': bitreverse}[op](x, w)
        if t[0] == 'v':
            return lambda st, a: tuple(one(st, x) for x in a[0])
        return lambda st, a: one(st, a[0])
    if b.startswith('fshl.') or b.startswith('fshr.'):
        t = rt
        w = iw(t[2]) if t[0] == 'v' else iw(t)
        left = b.startswith('fshl')
        if t[0] == 'v':
            return lambda st, a: tuple(fsh(left, x, y, z, w) for x, y, z in zip(*a))
        return lambda st, a: fsh(left, a[0], a[1], a[2], w)
    if b.startswith('expect'):
        return lambda st, a: a[0]
    if b.startswith('is.constant'):
        return lambda st, a: 0
    if b.startswith('objectsize'):
        return lambda st, a: (1 << iw(rt)) - 1
    if b.startswith('eh.typeid.for'):
        return lambda st, a: eng.typeid(a[0])
    if b == 'trap' or b == 'debugtrap' or b == 'ubsantrap':
        def h(st, a):
            raise Bug('trap', 'llvm.trap executed')
        return h
    if b == 'stacksave' or b.startswith('stacksave'):
        return lambda st, a: 0
    if b.startswith('threadlocal.address') or b.startswith('launder') or b.startswith('strip.invariant'):
        return lambda st, a: a[0]
    if b.startswith('va_start'):
        def h(st, a):
            fr = st.frames[-1]
            st.x['va', a[0]] = tuple(fr.va)
            st.store(a[0], 8, 0)
        return h
    if b.startswith('va_end'):
        return None
    m = re.match(r'vector\.reduce\.(\w+)\.', b)
    if m:
        op = m.group(1)
        vt = types[-1]
        w = iw(vt[2])
        from .compile import binop
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            f = binop(op, w)
        elif op in ('smax', 'smin', 'umax', 'umin'):
            f = scalar2(op, w)
        else:
            f = None
        if f is not None:
            def h(st, a):
                v = a[-1]
                r = fx(st, v[0], w)
                for x in v[1:]:
                    r = f(r, fx(st, x, w))
                return r
            return h
    if b.startswith('masked.load') or b.startswith('masked.store'):
        load = b.startswith('masked.load')
        from .compile import load_val, store_val, addr_add, ite
        vt = rt if load else types[0]
        es = size_of(vt[2])
        w = iw(vt[2])

        def h(st, a):
            p, mk = (a[0], a[2]) if load else (a[1], a[3])
            if whole(st, p, es * vt[1]):
                # every lane lies in one block: no need to look at the lanes one by one
                for i in range(vt[1]):
                    c = mk[i]
                    if load:
                        continue
                    if isinstance(c, int):
                        if c:
                            store_val(st, p + i * es, vt[2], a[0][i])
                    else:
                        store_val(st, p + i * es, vt[2], ite(c, a[0][i], load_val(st, p + i * es, vt[2]), w))
                if not load:
                    return None
                return tuple((load_val(st, p + i * es, vt[2]) if c else pt) if isinstance(c, int) else ite(c, load_val(
                    st, p + i * es, vt[2]), pt, w) for i, (c, pt) in enumerate(zip(mk, a[3])))
            if load:
                p, al, mk, pt = a
                out = []
                for i in range(vt[1]):
                    c = mk[i]
                    if not isinstance(c, int):
                        c = st.choose(c)
                    out.append(load_val(st, addr_add(p, i * es), vt[2]) if c else pt[i])
                return tuple(out)
            v, p, al, mk = a
            for i in range(vt[1]):
                c = mk[i]
                if not isinstance(c, int):
                    c = st.choose(c)
                if c:
                    store_val(st, addr_add(p, i * es), vt[2], v[i])
        return snapped(h)
    if b.startswith('masked.expandload') or b.startswith('masked.compressstore'):
        load = b.startswith('masked.expandload')
        from .compile import load_val, store_val, ite
        vt = rt if load else types[0]
        es = size_of(vt[2])
        w = iw(vt[2])
        n = vt[1]

        def packed(st, a):
            p, mk = (a[0], a[1]) if load else (a[1], a[2])
            bits = [BitVecVal(c, 8) if isinstance(c, int) else If(c, BitVecVal(1, 8), BitVecVal(0, 8)) for c in mk]
            pre = [BitVecVal(0, 8)]
            for x in bits:
                pre.append(z3.simplify(pre[-1] + x))
            if not whole(st, p, es * n):
                raise Unsupported('expanding past the end of a block')
            mem = [load_val(st, p + i * es, vt[2]) for i in range(n)]
            if load:
                out = []
                for i in range(n):
                    r = mem[i]
                    for j in range(i - 1, -1, -1):
                        r = ite(norm(pre[i] == j), mem[j], r, w)
                    c = mk[i]
                    out.append((r if c else a[2][i]) if isinstance(c, int) else ite(c, r, a[2][i], w))
                return tuple(out)
            for j in range(n):
                r = mem[j]
                for i in range(n - 1, j - 1, -1):
                    r = ite(norm(z3.And(bits[i] == 1, pre[i] == j)), a[0][i], r, w)
                store_val(st, p + j * es, vt[2], r)
        return packed
    if b.startswith('x86.'):
        return x86(eng, b[4:], types, rt)
    # floating point and the rest: uninterpreted
    if re.match(r'(fabs|sqrt|fma|fmuladd|floor|ceil|trunc|rint|nearbyint|roundeven|maxnum|minnum|copysign)\.', b):
        return generic_uf(name, types, rt, lanewise=True)
    if re.match(r'vector\.reduce\.f', b):
        return generic_uf(name, types, rt)
    return 'intrinsic ' + name


def whole(st, p, n):
    """do n bytes from p lie in one live block of known size"""
    if not isinstance(p, int):
        return False
    o = st.obj(p)
    return o is not None and o.alive and isinstance(o.size, int) and 0 <= p - o.base and p - o.base + n <= o.size


def snapped(h):
    """intrinsics that may fork after partial effects: restart from a snapshot"""
    def g(st, a):
        if st.snap is None:
            fr = st.frames[-1]
            fr.pc -= 1
            st.snap = st.fork()
            st.frames[-1].pc += 1
            r = h(st, a)
            st.snap = None
            return r
        return h(st, a)
    return g


def flat(v, t):
    """value -> list of (scalar, width)"""
    if t[0] == 'v':
        w = iw(t[2])
        return [(x, w) for x in v]
    if t[0] == 's' or t[0] == 'a':
        out = []
        ts = t[1] if t[0] == 's' else [t[2]] * t[1]
        for x, u in zip(v, ts):
            out += flat(x, u)
        return out
    return [(v, iw(t))]


def as_bits(st, v, t):
    fl = flat(v, t)
    fl = [(fx(st, x, w), w) for x, w in fl]
    if all(isinstance(x, int) for x, w in fl):
        r = 0
        s = 0
        for x, w in fl:
            r |= x << s
            s += w
        return r, s
    parts = [tobv(x, w) for x, w in reversed(fl)]
    e = Concat(*parts) if len(parts) > 1 else parts[0]
    return z3.simplify(e), sum(w for _, w in fl)


def unpoison(v):
    if isinstance(v, tuple):
        return tuple(unpoison(x) for x in v)
    return 0 if v is UNDEF else v


def generic_uf(name, types, rt, lanewise=False):
    """uninterpreted function of the concatenated argument bits; one function per result lane"""
    from .compile import uf

    def h(st, a):
        if lanewise and rt[0] == 'v':
            w = iw(rt[2])
            f = uf(name, [iw(t[2]) for t in types], w)
            return tuple(norm(f(*[tobv(fx(st, x[i], iw(t[2])), iw(t[2])) for x, t in zip(a, types)]))
                         for i in range(rt[1]))
        # a lane the compiler marked as poison is one this instruction does not read (the upper
        # lanes of a scalar instruction's pass-through operand): the same value for every call
        bits = [as_bits(st, unpoison(v), t) for v, t in zip(a, types)]
        ws = [w for _, w in bits]
        vals = [tobv(v, w) for v, w in bits]

        def one(tag, w):
            r = uf(name + tag, ws, max(w, 1))(*vals)
            if w == 1:
                return norm(r == BitVecVal(1, 1))
            return r
        if rt[0] == 'v':
            return tuple(one('#%d' % i, iw(rt[2])) for i in range(rt[1]))
        if rt[0] == 's':
            out = []
            for j, u in enumerate(rt[1]):
                if u[0] == 'v':
                    out.append(tuple(one('#%d.%d' % (j, i), iw(u[2])) for i in range(u[1])))
                else:
                    out.append(one('#%d' % j, iw(u)))
            return tuple(out)
        if rt[0] == 'void':
            return None
        return one('', iw(rt))
    return h


def pick(v, k, w, n):
    """v[k] for a symbolic lane index (low bits)"""
    bits = n.bit_length() - 1
    if isinstance(k, int):
        return v[k & (n - 1)]
    from .compile import ite
    kk = Extract(bits - 1, 0, k)
    r = v[n - 1]
    for j in range(n - 2, -1, -1):
        r = ite(norm(kk == BitVecVal(j, bits)), v[j], r, w)
    return r


def x86(eng, b, types, rt):
    if b in ('avx512.permvar.si.512', 'avx512.permvar.di.512', 'avx2.permd', 'avx512.permvar.di.256',
             'avx512.permvar.sf.512', 'avx512.permvar.df.512', 'avx2.permps', 'avx512.permvar.hi.512'):
        n = rt[1]
        w = iw(rt[2])
        return lambda st, a: tuple(pick(a[0], fx(st, k, w), w, n) for k in a[1])
    if b == 'avx2.pshuf.b' or b == 'ssse3.pshuf.b.128' or b == 'avx512.pshuf.b.512':
        n = rt[1]

        def h(st, a):
            out = []
            for i in range(n):
                k = fx(st, a[1][i], 8)
                lane = i // 16 * 16
                grp = a[0][lane:lane + 16]
                if isinstance(k, int):
                    out.append(0 if k & 0x80 else grp[k & 15])
                else:
                    out.append(norm(If(Extract(7, 7, k) == 1, BitVecVal(0, 8), tobv(pick(grp, k, 8, 16), 8))))
            return tuple(out)
        return h
    if b.startswith('avx512.vpermi2var') and rt[0] == 'v':
        n = rt[1]
        w = iw(rt[2])
        return lambda st, a: tuple(pick(tuple(a[0]) + tuple(a[2]), fx(st, k, iw(types[1][2])), w, 2 * n) for k in a[1])
    m = re.match(r'avx512\.mask\.pmov(s|us|)\.([qdw])([dwb])\.mem\.512$', b)
    if m:
        # narrow every lane and store those selected
        from .compile import load_val, store_val, ite
        kind = m.group(1)
        dw = {'d': 32, 'w': 16, 'b': 8}[m.group(3)]
        n, sw = types[1][1], iw(types[1][2])

        def narrow(st, a):
            p, v, mk = a
            it = ('i', dw)
            if not whole(st, p, dw // 8 * n):
                raise Unsupported('narrowing past the end of a block')
            bit = (lambda i: bool(mk >> i & 1)) if isinstance(mk, int) else (lambda i: norm(Extract(i, i, mk) == 1)) \
                if not isinstance(mk, tuple) else (lambda i: mk[i])
            for i in range(n):
                x = tobv(fx(st, v[i], sw), sw)
                lo = Extract(dw - 1, 0, x)
                if kind == 's':
                    hi, mn = (1 << (dw - 1)) - 1, -(1 << (dw - 1))
                    lo = If(x > hi, BitVecVal(hi, dw), If(x < mn, BitVecVal(mn, dw), lo))
                elif kind == 'us':
                    lo = If(z3.UGT(x, (1 << dw) - 1), BitVecVal((1 << dw) - 1, dw), lo)
                q = p + i * (dw // 8)
                c = bit(i)
                lo = norm(lo)
                if isinstance(c, (bool, int)):
                    if c:
                        store_val(st, q, it, lo)
                else:
                    store_val(st, q, it, ite(c, lo, load_val(st, q, it), dw))
        return narrow
    if b == 'avx.vzeroupper' or b == 'avx.vzeroall' or b.startswith('sse.sfence') or b.startswith('sse2.lfence') \
            or b.startswith('sse2.mfence'):
        return None
    if b == 'xgetbv':
        return lambda st, a: eng.xgetbv(st, a[0])
    if b.startswith('sse.ldmxcsr') or b.startswith('sse.stmxcsr'):
        return 'intrinsic llvm.x86.' + b
    # pointer operands would need memory effects: decline
    if any(t[0] == 'ptr' for t in types) or rt[0] == 'void':
        return 'intrinsic llvm.x86.' + b
    return generic_uf('llvm.x86.' + b, types, rt)
