"""Compiles parsed IR instructions into python closures f(st, fr) -> truthy when the frame stack changed."""
import struct
import re
import z3
from z3 import BitVecVal, If, Not, And, Or, Xor, Extract, Concat, ZeroExt, SignExt, simplify
from . import core
from .core import (tobv, tobool, norm, sext_int, Bug, Unsupported, CxxThrow, PUSHED, Obj, REGION, M64, goto)
from .ir import (P, UNDEF, tokenize, size_of, align_of, field_offsets, iw, split_blocks, strip_meta, PARAM_ATTRS,
                 PARAM_ATTRS_P, unq, zero_of, undef_of)

BoolRef = z3.BoolRef


def fixundef(st, v, w):
    if v is UNDEF:
        return st.fresh('undef', w)
    return v


# ------------------------------------------------------------------ scalar ops
def mk_binop(op, w):
    mask = (1 << w) - 1
    if w == 1:
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                if op in ('add', 'sub', 'xor'):
                    return a ^ b
                if op in ('and', 'mul'):
                    return a & b
                if op == 'or':
                    return a | b
                raise Unsupported('i1 ' + op)
            A, B = tobool(a), tobool(b)
            if op in ('add', 'sub', 'xor'):
                return norm(Xor(A, B))
            if op in ('and', 'mul'):
                return norm(And(A, B))
            if op == 'or':
                return norm(Or(A, B))
            raise Unsupported('i1 ' + op)
        return f
    if op == 'add':
        def f(a, b):
            if isinstance(a, int):
                if isinstance(b, int):
                    return (a + b) & mask
                if a == 0:
                    return b
                return BitVecVal(a, w) + b
            if isinstance(b, int):
                if b == 0:
                    return a
                return simplify(a + BitVecVal(b, w))
            return a + b
    elif op == 'sub':
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return (a - b) & mask
            if isinstance(b, int):
                if b == 0:
                    return a
                return simplify(a - BitVecVal(b, w))
            return norm(tobv(a, w) - b)
    elif op == 'mul':
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return (a * b) & mask
            return norm(tobv(a, w) * tobv(b, w))
    elif op == 'and':
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return a & b
            return norm(tobv(a, w) & tobv(b, w))
    elif op == 'or':
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return a | b
            return norm(tobv(a, w) | tobv(b, w))
    elif op == 'xor':
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            return norm(tobv(a, w) ^ tobv(b, w))
    elif op == 'shl':
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return (a << b) & mask if b < w else 0
            return norm(tobv(a, w) << tobv(b, w))
    elif op == 'lshr':
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return a >> b if b < w else 0
            return norm(z3.LShR(tobv(a, w), tobv(b, w)))
    elif op == 'ashr':
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return (sext_int(a, w) >> min(b, w)) & mask
            return norm(tobv(a, w) >> tobv(b, w))
    elif op in ('udiv', 'urem', 'sdiv', 'srem'):
        def f(a, b):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Bug('div-by-zero', op)
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sext_int(a, w), sext_int(b, w)
                if y == -1 and x == -(1 << (w - 1)):
                    raise Bug('div-overflow', op)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                if op == 'sdiv':
                    return q & mask
                return (x - q * y) & mask
            A, B = tobv(a, w), tobv(b, w)
            if op == 'udiv':
                return norm(z3.UDiv(A, B))
            if op == 'urem':
                return norm(z3.URem(A, B))
            if op == 'sdiv':
                return norm(A / B)
            return norm(z3.SRem(A, B))
    else:
        raise Unsupported('binop ' + op)
    return f


def divide(st, op, w, x, y, f, most=8):
    """Symbolic / symbolic: case split on small quotients, so that the solver sees multiplications by constants."""
    A, B = tobv(x, w), tobv(y, w)
    neg = negx = False
    if op[0] == 's':
        negx = st.choose(A < 0)
        negy = st.choose(B < 0)
        if negx:
            A = -A
        if negy:
            B = -B
        neg = negx != negy
    e = w + 4
    EA, EB = z3.ZeroExt(4, A), z3.ZeroExt(4, B)
    for k in range(most):
        if st.choose(z3.ULT(EA, BitVecVal(k + 1, e) * EB)):
            if op.endswith('div'):
                return (-k if neg else k) & ((1 << w) - 1)
            v = A - BitVecVal(k, w) * B
            return norm(z3.simplify(-v if negx else v))
    return f(x, y)


_binops = {}


def binop(op, w):
    k = (op, w)
    f = _binops.get(k)
    if f is None:
        f = _binops[k] = mk_binop(op, w)
    return f


def mk_icmp(pred, w):
    signed = pred[0] == 's'

    def f(a, b):
        if isinstance(a, int) and isinstance(b, int):
            if signed:
                a = sext_int(a, w)
                b = sext_int(b, w)
            if pred == 'eq':
                return 1 if a == b else 0
            if pred == 'ne':
                return 1 if a != b else 0
            c = pred[1:]
            if c == 'lt':
                return 1 if a < b else 0
            if c == 'le':
                return 1 if a <= b else 0
            if c == 'gt':
                return 1 if a > b else 0
            return 1 if a >= b else 0
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pred == 'eq':
                return norm(A == B)
            if pred == 'ne':
                return norm(Xor(A, B))
            A, B = tobv(a, 1), tobv(b, 1)
        else:
            A, B = tobv(a, w), tobv(b, w)
        if pred == 'eq':
            return norm(A == B)
        if pred == 'ne':
            return norm(A != B)
        return norm({'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B,
                     'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B),
                     'uge': lambda: z3.UGE(A, B)}[pred]())
    return f


_icmps = {}


def icmp(pred, w):
    k = (pred, w)
    f = _icmps.get(k)
    if f is None:
        f = _icmps[k] = mk_icmp(pred, w)
    return f


_ufs = {}


def uf(name, ws, wr):
    k = (name, tuple(ws), wr)
    f = _ufs.get(k)
    if f is None:
        f = _ufs[k] = z3.Function('%s.%s.%d' % (name, '.'.join(map(str, ws)), wr), *[z3.BitVecSort(w) for w in ws],
                                  z3.BitVecSort(wr))
    return f


def uf_app(name, args, ws, wr):
    f = uf(name, ws, wr)
    return f(*[tobv(a, w) for a, w in zip(args, ws)])


def f2d(v, w):
    if w == 64:
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    if w == 32:
        return struct.unpack('<f', struct.pack('<I', v))[0]
    raise Unsupported('float width')


def d2f(d, w):
    try:
        if w == 64:
            return struct.unpack('<Q', struct.pack('<d', d))[0]
        return struct.unpack('<I', struct.pack('<f', d))[0]
    except OverflowError:
        raise Unsupported('float overflow')


def cast_scalar(op, v, sw, dw, st):
    if v is UNDEF:
        return st.fresh('undef', dw)
    if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
        if sw == dw:
            return v
        if op == 'bitcast':
            if dw == 1 or sw == 1:
                raise Unsupported('bitcast i1')
        op = 'trunc' if dw < sw else 'zext'
    if op == 'trunc':
        if isinstance(v, int):
            return v & ((1 << dw) - 1)
        if dw == 1:
            return norm(Extract(0, 0, v) == BitVecVal(1, 1))
        return norm(Extract(dw - 1, 0, v))
    if op == 'zext':
        if isinstance(v, int):
            return v
        if sw == 1:
            return If(v, BitVecVal(1, dw), BitVecVal(0, dw))
        return ZeroExt(dw - sw, v)
    if op == 'sext':
        if isinstance(v, int):
            return sext_int(v, sw) & ((1 << dw) - 1)
        if sw == 1:
            return If(v, BitVecVal((1 << dw) - 1, dw), BitVecVal(0, dw))
        return SignExt(dw - sw, v)
    if isinstance(v, int):
        if op in ('fpext', 'fptrunc'):
            return d2f(f2d(v, sw), dw)
        if op == 'sitofp':
            return d2f(float(sext_int(v, sw)), dw)
        if op == 'uitofp':
            return d2f(float(v), dw)
    return uf_app('c_' + op, [v], [sw], dw)


def lanes_split(v, sw, dw):
    """re-lane a tuple of sw-bit values into dw-bit values (little endian)"""
    if sw == dw:
        return v
    total = sw * len(v)
    if all(isinstance(x, int) for x in v):
        big = 0
        for i, x in enumerate(v):
            big |= x << (sw * i)
        return tuple((big >> (dw * i)) & ((1 << dw) - 1) for i in range(total // dw))
    out = []
    if dw > sw:
        k = dw // sw
        for i in range(0, len(v), k):
            part = v[i:i + k]
            if all(isinstance(x, int) for x in part):
                r = 0
                for j, x in enumerate(part):
                    r |= x << (sw * j)
                out.append(r)
            else:
                out.append(norm(Concat(*[tobv(x, sw) for x in reversed(part)])))
    else:
        k = sw // dw
        for x in v:
            for j in range(k):
                if isinstance(x, int):
                    out.append((x >> (dw * j)) & ((1 << dw) - 1))
                elif dw == 1:
                    out.append(norm(Extract(j, j, tobv(x, sw)) == BitVecVal(1, 1)))
                else:
                    out.append(norm(Extract(dw * (j + 1) - 1, dw * j, tobv(x, sw))))
    return tuple(out)


def bitcast(v, t, d, st):
    if t == d:
        return v
    sv = t[0] == 'v'
    dv = d[0] == 'v'
    if not sv and not dv:
        return cast_scalar('bitcast', v, iw(t), iw(d), st)
    sw = iw(t[2]) if sv else iw(t)
    dw = iw(d[2]) if dv else iw(d)
    vv = v if sv else (v,)
    vv = tuple(fixundef(st, x, sw) for x in vv)
    r = lanes_split(vv, sw, dw)
    return r if dv else r[0]


# ------------------------------------------------------------------ loads and stores of any first class type
def load_val(st, a, t):
    k = t[0]
    if k == 'i':
        w = t[1]
        n = (w + 7) // 8
        v = st.load(a, n)
        if w == 8 * n:
            return v
        return cast_scalar('trunc', v, 8 * n, w, st)
    if k == 'ptr':
        return st.load(a, 8)
    if k == 'f':
        return st.load(a, t[1] // 8)
    if k == 'v':
        ew = iw(t[2])
        if ew % 8:
            n = size_of(t)
            v = st.load(a, n)
            r = lanes_split((v,), 8 * n, ew)
            return r[:t[1]]
        es = ew // 8
        n = t[1]
        st_a = a
        if not isinstance(a, int):
            a = st.resolve(a, es * n, 'vector read')
        o, off = st.find(a, es * n, 'vector read')
        out = []
        for i in range(n):
            c = o.cells.get(off + i * es)
            if c is not None and c[0] == es:
                out.append(c[1])
            else:
                out.append(st._load_slow(o, off + i * es, es))
                o = st.region_obj(a >> REGION) if not o.kind == 'big' else o
        return tuple(out)
    if k == 'a':
        es = size_of(t[2])
        return tuple(load_val(st, addr_add(a, i * es), t[2]) for i in range(t[1]))
    if k == 's':
        return tuple(load_val(st, addr_add(a, o), x) for o, x in zip(field_offsets(t), t[1]))
    raise Unsupported('load ' + repr(t))


def addr_add(a, n):
    if n == 0:
        return a
    if isinstance(a, int):
        return (a + n) & M64
    return simplify(a + BitVecVal(n & M64, 64))


def store_val(st, a, t, v):
    k = t[0]
    if k == 'i':
        w = t[1]
        n = (w + 7) // 8
        if w != 8 * n and not isinstance(v, int):
            v = cast_scalar('zext', fixundef(st, v, w), w, 8 * n, st)
        st.store(a, n, v)
    elif k == 'ptr':
        st.store(a, 8, v)
    elif k == 'f':
        st.store(a, t[1] // 8, v)
    elif k == 'v':
        ew = iw(t[2])
        if ew % 8:
            n = size_of(t)
            lanes = tuple(v) + (0,) * (8 * n - len(v))
            r = lanes_split(tuple(fixundef(st, x, ew) for x in lanes), ew, 8 * n)
            st.store(a, n, r[0])
            return
        es = ew // 8
        if not isinstance(a, int):
            a = st.resolve(a, es * t[1], 'vector write')
        o, off = st.find(a, es * t[1], 'vector write')
        if o.ro:
            raise Bug('write-to-constant', o.name)
        o = st.wobj(o.base >> REGION)
        for i, x in enumerate(v):
            st.put(o, off + i * es, es, x)
    elif k == 'a':
        es = size_of(t[2])
        for i, x in enumerate(v if v is not UNDEF else ()):
            store_val(st, addr_add(a, i * es), t[2], x)
    elif k == 's':
        for o, ft, x in zip(field_offsets(t), t[1], v):
            store_val(st, addr_add(a, o), ft, x)
    else:
        raise Unsupported('store ' + repr(t))


def ite(c, a, b, w):
    """symbolic select of scalars"""
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if w == 1:
        return norm(If(c, tobool(a), tobool(b)))
    return norm(If(c, tobv(a, w), tobv(b, w)))


def select_val(st, c, a, b, t):
    if isinstance(c, tuple):
        w = iw(t[2])
        return tuple(ite(x, y, z, w) for x, y, z in zip(c, a, b))
    if isinstance(c, int):
        return a if c else b
    if c is UNDEF:
        return a
    if t[0] == 'v':
        w = iw(t[2])
        return tuple(ite(c, y, z, w) for y, z in zip(a, b))
    if t[0] in ('s', 'a'):
        raise Unsupported('select aggregate')
    return ite(c, a, b, iw(t))


VEC = re.compile(r'<(\d+) x (i\d+|float|double|ptr|half)>')
EBITS = {'float': 32, 'double': 64, 'ptr': 64, 'half': 16}


def vec_level(ln):
    """the vector instruction set an instruction needs, as far as its types tell"""
    if ' shufflevector ' in ln:
        ln = ln[:ln.rfind(', <')]
    lo = 512 if '@llvm.x86.avx512' in ln else 0
    n = max([int(a) * (EBITS.get(b) or int(b[1:])) for a, b in VEC.findall(ln)] + [lo])
    if n >= 512:
        return 'avx512'
    if n >= 256:
        return 'avx2'
    if '@llvm.x86.ssse3' in ln:
        return 'ssse3'
    return None


class FnCompiler:
    def __init__(self, eng, fn):
        self.eng = eng
        self.fn = fn
        self.mod = fn.mod
        self.regs = {}
        self.template = []
        self.consts = {}
        self.code = []

    def reg(self, name):
        r = self.regs.get(name)
        if r is None:
            r = self.regs[name] = len(self.template)
            self.template.append(None)
        return r

    def cst(self, v):
        try:
            k = ('c', v)
            r = self.consts.get(k)
        except TypeError:
            r = None
            k = None
        if r is None:
            r = len(self.template)
            self.template.append(v)
            if k is not None:
                self.consts[k] = r
        return r

    def val(self, p, t):
        """operand of type t -> register index"""
        x = p.peek()
        if x[0] == '%' and len(x) > 1:
            p.next()
            return self.reg(x)
        if x == 'asm':
            raise SyntaxError('asm operand')
        return self.cst(p.const(t))

    def tval(self, p):
        t = p.type()
        p.skip_attrs()
        return t, self.val(p, t)

    def compile(self):
        fn = self.fn
        self.mod.parse_header(fn)
        for t, nm in fn.params:
            self.reg(nm)
        blocks = split_blocks(fn.body)
        # entry label
        if blocks and blocks[0][0] is None:
            n = sum(1 for _, nm in fn.params if nm[1:].isdigit())
            blocks[0] = (str(n), blocks[0][1])
        # parse phis
        self.phis = {}
        parsed = []
        pc = 0
        self.bpc = {}
        for label, lines in blocks:
            ins = []
            phis = []
            for ln in lines:
                ln = strip_meta(ln)
                toks = tokenize(ln)
                dst = None
                if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
                    dst = toks[0]
                    toks = toks[2:]
                if toks[0] == 'phi':
                    p = P(toks, self.mod)
                    p.next()
                    while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                        p.next()
                    t = p.type()
                    d = self.reg(dst)
                    inc = {}
                    while p.accept('['):
                        v = self.val(p, t)
                        p.expect(',')
                        lb = p.next()
                        inc[unq(lb)] = v
                        p.expect(']')
                        p.accept(',')
                    phis.append((d, inc))
                else:
                    ins.append((dst, toks, ln))
            self.phis[label] = phis
            self.bpc[label] = pc
            pc += len(ins)
            parsed.append((label, ins))
        # landing pads per block
        self.lps = {}
        for label, ins in parsed:
            if ins and ins[0][1][0] == 'landingpad':
                self.lps[label] = self.parse_lp(ins[0][1])
        for label, ins in parsed:
            self.cur = label
            for dst, toks, ln in ins:
                try:
                    c = self.instr(dst, toks)
                    lv = self.eng.isa and vec_level(ln)
                    if lv:
                        c = self.guarded(c, lv)
                except (SyntaxError, Unsupported, KeyError, IndexError, TypeError) as e:
                    c = self.unsupported('%s: %s in %s' % (type(e).__name__, e, ln[:160]))
                self.code.append(c)
        fn.code = self.code
        fn.template = self.template
        fn.compiled = True

    def guarded(self, c, lv):
        check = self.eng.isa

        def g(st, fr):
            check(st, lv)
            return c(st, fr)
        return g

    def unsupported(self, msg):
        def f(st, fr):
            raise Unsupported(msg)
        return f

    def parse_lp(self, toks):
        p = P(toks, self.mod)
        p.next()
        p.type()
        cleanup = False
        clauses = []
        while p.peek() is not None:
            x = p.next()
            if x == 'cleanup':
                cleanup = True
            elif x == 'catch':
                t = p.type()
                clauses.append(('catch', p.const(t)))
            elif x == 'filter':
                t = p.type()
                p.const(t)
                clauses.append(('catch', 0))
            else:
                raise SyntaxError('landingpad ' + x)
        return (cleanup, clauses)

    def edge(self, label):
        label = unq(label)
        cp = []
        for d, inc in self.phis.get(label, ()):
            s = inc[self.cur]
            if s != d:
                cp.append((d, s))
        return (self.bpc[label], cp, self.lps.get(label))

    # ---------------------------------------------------------- instructions
    def instr(self, dst, toks):
        p = P(toks, self.mod)
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        m = getattr(self, 'i_' + op, None)
        d = self.reg(dst) if dst is not None else -1
        if m is not None:
            return m(p, d)
        if op in BINOPS:
            return self.bin(op, p, d)
        if op in FBINOPS:
            return self.fbin(op, p, d)
        if op in CASTS:
            return self.cast(op, p, d)
        raise Unsupported('instruction ' + op)

    def bin(self, op, p, d):
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        t = p.type()
        a = self.val(p, t)
        p.expect(',')
        b = self.val(p, t)
        if t[0] == 'v':
            w = iw(t[2])
            f = binop(op, w)

            def g(st, fr):
                r = fr.regs
                r[d] = tuple(f(fixundef(st, x, w), fixundef(st, y, w)) for x, y in zip(r[a], r[b]))
            return g
        w = iw(t)
        f = binop(op, w)
        isdiv = op in ('udiv', 'sdiv', 'urem', 'srem')
        mask = (1 << w) - 1
        if op == 'add':
            def g(st, fr):
                r = fr.regs
                x = r[a]
                y = r[b]
                if type(x) is int and type(y) is int:
                    r[d] = (x + y) & mask
                else:
                    r[d] = f(fixundef(st, x, w), fixundef(st, y, w))
            return g

        def g(st, fr):
            r = fr.regs
            x = r[a]
            y = r[b]
            if x is UNDEF or y is UNDEF:
                x = fixundef(st, x, w)
                y = fixundef(st, y, w)
            if isdiv and not isinstance(y, int):
                if st.choose(y == BitVecVal(0, w)):
                    raise Bug('div-by-zero', op)
            if isdiv and op[0] == 's' and not (isinstance(x, int) and isinstance(y, int)):
                if st.choose(And(tobv(x, w) == BitVecVal(1 << (w - 1), w), tobv(y, w) == BitVecVal(mask, w))):
                    raise Bug('div-overflow', op)
            if isdiv and w > 16 and not isinstance(y, int) and not isinstance(x, int):
                r[d] = divide(st, op, w, x, y, f)
            else:
                r[d] = f(x, y)
        return g

    def fbin(self, op, p, d):
        while p.peek() in FMF:
            p.next()
        t = p.type()
        a = self.val(p, t)
        if op == 'fneg':
            w = iw(t[2]) if t[0] == 'v' else iw(t)

            def neg(x):
                return (x ^ (1 << (w - 1))) if isinstance(x, int) else x ^ BitVecVal(1 << (w - 1), w)
            if t[0] == 'v':
                def g(st, fr):
                    fr.regs[d] = tuple(neg(x) for x in fr.regs[a])
            else:
                def g(st, fr):
                    fr.regs[d] = neg(fr.regs[a])
            return g
        p.expect(',')
        b = self.val(p, t)
        w = iw(t[2]) if t[0] == 'v' else iw(t)

        def one(st, x, y):
            x = fixundef(st, x, w)
            y = fixundef(st, y, w)
            if isinstance(x, int) and isinstance(y, int) and w == 64 and op in ('fadd', 'fsub', 'fmul'):
                fx, fy = f2d(x, w), f2d(y, w)
                if fx == fx and fy == fy and abs(fx) < 1e150 and abs(fy) < 1e150:
                    return d2f({'fadd': fx + fy, 'fsub': fx - fy, 'fmul': fx * fy}[op], w)
            return uf_app(op, [x, y], [w, w], w)
        if t[0] == 'v':
            def g(st, fr):
                r = fr.regs
                r[d] = tuple(one(st, x, y) for x, y in zip(r[a], r[b]))
        else:
            def g(st, fr):
                r = fr.regs
                r[d] = one(st, r[a], r[b])
        return g

    def cast(self, op, p, d):
        while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FMF:
            p.next()
        t = p.type()
        a = self.val(p, t)
        p.expect('to')
        u = p.type()
        if op == 'bitcast':
            def g(st, fr):
                fr.regs[d] = bitcast(fr.regs[a], t, u, st)
            return g
        if t[0] == 'v':
            sw, dw = iw(t[2]), iw(u[2])

            def g(st, fr):
                fr.regs[d] = tuple(cast_scalar(op, x, sw, dw, st) for x in fr.regs[a])
            return g
        sw, dw = iw(t), iw(u)
        if op in ('ptrtoint', 'inttoptr') and sw == dw:
            def g(st, fr):
                fr.regs[d] = fr.regs[a]
            return g
        mask = (1 << dw) - 1
        if op == 'trunc':
            def g(st, fr):
                v = fr.regs[a]
                fr.regs[d] = v & mask if type(v) is int else cast_scalar('trunc', v, sw, dw, st)
            return g
        if op == 'zext':
            def g(st, fr):
                v = fr.regs[a]
                fr.regs[d] = v if type(v) is int else cast_scalar('zext', v, sw, dw, st)
            return g

        def g(st, fr):
            fr.regs[d] = cast_scalar(op, fr.regs[a], sw, dw, st)
        return g

    def i_icmp(self, p, d):
        pred = p.next()
        if pred == 'samesign':
            pred = p.next()
        t = p.type()
        a = self.val(p, t)
        p.expect(',')
        b = self.val(p, t)
        if t[0] == 'v':
            w = iw(t[2])
            f = icmp(pred, w)

            def g(st, fr):
                r = fr.regs
                r[d] = tuple(f(fixundef(st, x, w), fixundef(st, y, w)) for x, y in zip(r[a], r[b]))
            return g
        w = iw(t)
        f = icmp(pred, w)
        if pred == 'eq':
            def g(st, fr):
                r = fr.regs
                x = r[a]
                y = r[b]
                if type(x) is int and type(y) is int:
                    r[d] = 1 if x == y else 0
                else:
                    r[d] = f(fixundef(st, x, w), fixundef(st, y, w))
            return g

        def g(st, fr):
            r = fr.regs
            r[d] = f(fixundef(st, r[a], w), fixundef(st, r[b], w))
        return g

    def i_fcmp(self, p, d):
        while p.peek() in FMF:
            p.next()
        pred = p.next()
        t = p.type()
        a = self.val(p, t)
        p.expect(',')
        b = self.val(p, t)
        w = iw(t[2]) if t[0] == 'v' else iw(t)

        def one(x, y):
            if pred == 'true':
                return 1
            if pred == 'false':
                return 0
            if isinstance(x, int) and isinstance(y, int):
                fx, fy = f2d(x, w), f2d(y, w)
                uno = fx != fx or fy != fy
                if pred == 'ord':
                    return int(not uno)
                if pred == 'uno':
                    return int(uno)
                if uno:
                    return int(pred[0] == 'u')
                return int({'eq': fx == fy, 'ne': fx != fy, 'lt': fx < fy, 'le': fx <= fy, 'gt': fx > fy,
                            'ge': fx >= fy}[pred[1:]])
            fs = {32: z3.Float32(), 64: z3.Float64(), 16: z3.Float16()}[w]
            X = z3.fpBVToFP(tobv(x, w), fs)
            Y = z3.fpBVToFP(tobv(y, w), fs)
            uno = Or(z3.fpIsNaN(X), z3.fpIsNaN(Y))
            if pred == 'ord':
                return norm(Not(uno))
            if pred == 'uno':
                return norm(uno)
            c = {'eq': lambda: z3.fpEQ(X, Y), 'ne': lambda: Not(z3.fpEQ(X, Y)), 'lt': lambda: z3.fpLT(X, Y),
                 'le': lambda: z3.fpLEQ(X, Y), 'gt': lambda: z3.fpGT(X, Y), 'ge': lambda: z3.fpGEQ(X, Y)}[pred[1:]]()
            return norm(Or(uno, c) if pred[0] == 'u' else And(Not(uno), c))
        if t[0] == 'v':
            def g(st, fr):
                r = fr.regs
                r[d] = tuple(one(fixundef(st, x, w), fixundef(st, y, w)) for x, y in zip(r[a], r[b]))
        else:
            def g(st, fr):
                r = fr.regs
                r[d] = one(fixundef(st, r[a], w), fixundef(st, r[b], w))
        return g

    def i_select(self, p, d):
        while p.peek() in FMF:
            p.next()
        ct, c = self.tval(p)
        p.expect(',')
        t, a = self.tval(p)
        p.expect(',')
        _, b = self.tval(p)

        def g(st, fr):
            r = fr.regs
            x = r[c]
            if type(x) is int:
                r[d] = r[a] if x else r[b]
            else:
                r[d] = select_val(st, x, r[a], r[b], t)
        return g

    def i_freeze(self, p, d):
        t, a = self.tval(p)

        def g(st, fr):
            v = fr.regs[a]
            if v is UNDEF:
                v = st.fresh('frz', iw(t))
            elif isinstance(v, tuple) and t[0] == 'v':
                v = tuple(fixundef(st, x, iw(t[2])) for x in v)
            fr.regs[d] = v
        return g

    def i_br(self, p, d):
        if p.accept('label'):
            e = self.edge(p.next())
            pc, cp, _ = e
            if not cp:
                def g(st, fr):
                    fr.pc = pc
                return g
            if len(cp) == 1:
                dd, ss = cp[0]

                def g(st, fr):
                    r = fr.regs
                    r[dd] = r[ss]
                    fr.pc = pc
                return g

            def g(st, fr):
                goto(fr, e)
            return g
        p.type()
        c = self.val(p, ('i', 1))
        p.expect(',')
        p.expect('label')
        e1 = self.edge(p.next())
        p.expect(',')
        p.expect('label')
        e2 = self.edge(p.next())

        def g(st, fr):
            x = fr.regs[c]
            if type(x) is not int:
                if x is UNDEF:
                    raise Bug('undef-branch', 'branch on an undefined value in ' + fr.fn.name)
                x = st.choose(x)
            goto(fr, e1 if x else e2)
        return g

    def i_switch(self, p, d):
        t, c = self.tval(p)
        p.expect(',')
        p.expect('label')
        de = self.edge(p.next())
        p.expect('[')
        cases = []
        tbl = {}
        while not p.accept(']'):
            ct = p.type()
            v = p.const(ct)
            p.expect(',')
            p.expect('label')
            e = self.edge(p.next())
            cases.append((v, e))
            tbl[v] = e
        w = iw(t)

        def g(st, fr):
            x = fr.regs[c]
            if type(x) is int:
                goto(fr, tbl.get(x, de))
                return
            for v, e in cases:
                if st.choose(x == BitVecVal(v, w)):
                    goto(fr, e)
                    return
            goto(fr, de)
        return g

    def i_ret(self, p, d):
        t = p.type()
        if t[0] == 'void':
            def g(st, fr):
                st.eng.do_return(st, None)
                return True
            return g
        a = self.val(p, t)

        def g(st, fr):
            st.eng.do_return(st, fr.regs[a])
            return True
        return g

    def i_unreachable(self, p, d):
        name = self.fn.name

        def g(st, fr):
            raise Bug('unreachable', 'unreachable code reached in ' + name)
        return g

    def i_alloca(self, p, d):
        p.accept('inalloca')
        t = p.type()
        n = self.cst(1)
        nt = ('i', 64)
        if p.accept(','):
            if p.peek() == 'align':
                p.i -= 1
            else:
                nt, n = self.tval(p)
        es = size_of(t)
        name = 'stack object in ' + self.fn.name

        def g(st, fr):
            cnt = fr.regs[n]
            if not isinstance(cnt, int):
                cnt = st.concretize(cnt, 16, 'alloca size')
            a = st.new_region(es * cnt, 'stack', None, name)
            fr.allocas.append(a >> REGION)
            fr.regs[d] = a
        return g

    def i_load(self, p, d):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.expect(',')
        _, a = self.tval(p)
        al = self.align(p)
        if t[0] in ('i', 'ptr', 'f') and (t[0] != 'i' or t[1] % 8 == 0):
            n = (iw(t) + 7) // 8

            def g(st, fr):
                r = fr.regs
                ad = r[a]
                if type(ad) is int:
                    o = st.mem.get(ad >> 24)
                    if o is not None and o.alive:
                        off = ad - o.base
                        c = o.cells.get(off)
                        if c is not None and c[0] == n:
                            r[d] = c[1]
                            return
                r[d] = st.load(ad, n)
            return g
        chk = t[0] == 'v' and al >= 16 and size_of(t) >= 16

        def g(st, fr):
            r = fr.regs
            ad = r[a]
            if chk:
                check_align(st, ad, al, 'load')
            r[d] = load_val(st, ad, t)
        return g

    def align(self, p):
        al = 1
        while p.peek() is not None:
            x = p.next()
            if x == 'align':
                al = int(p.next())
        return al

    def i_store(self, p, d):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t, v = self.tval(p)
        p.expect(',')
        _, a = self.tval(p)
        al = self.align(p)
        if t[0] in ('i', 'ptr', 'f') and (t[0] != 'i' or t[1] % 8 == 0):
            n = (iw(t) + 7) // 8

            def g(st, fr):
                r = fr.regs
                st.store(r[a], n, r[v])
            return g
        chk = t[0] == 'v' and al >= 16 and size_of(t) >= 16

        def g(st, fr):
            r = fr.regs
            if chk:
                check_align(st, r[a], al, 'store')
            store_val(st, r[a], t, r[v])
        return g

    def i_getelementptr(self, p, d):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        pt, base = self.tval(p)
        if pt[0] == 'v':
            raise Unsupported('vector gep')
        const = 0
        terms = []
        cur = bt
        n = 0
        while p.accept(','):
            it, i = self.tval(p)
            v = self.template[i] if ('c', self.template[i]) in self.consts and self.consts[('c', self.template[i])] == i \
                and isinstance(self.template[i], int) else None
            w = iw(it)
            if n == 0:
                sz = size_of(cur)
            elif cur[0] == 's':
                const += field_offsets(cur)[v]
                cur = cur[1][v]
                n += 1
                continue
            else:
                cur = cur[2]
                sz = size_of(cur)
            if v is not None:
                const += sext_int(v, w) * sz
            else:
                terms.append((i, w, sz))
            n += 1
        const &= M64
        if not terms:
            def g(st, fr):
                r = fr.regs
                b = r[base]
                if type(b) is int:
                    r[d] = (b + const) & M64
                else:
                    r[d] = addr_add(b, const)
            return g
        if len(terms) == 1:
            i, w, sz = terms[0]

            def g(st, fr):
                r = fr.regs
                b = r[base]
                x = r[i]
                if type(b) is int and type(x) is int:
                    r[d] = (b + const + (x - (1 << w) if x >> (w - 1) else x) * sz) & M64
                else:
                    r[d] = gep_sym(b, const, ((x, w, sz),))
            return g

        def g(st, fr):
            r = fr.regs
            r[d] = gep_sym(r[base], const, [(r[i], w, sz) for i, w, sz in terms])
        return g

    def i_extractvalue(self, p, d):
        t, a = self.tval(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))

        def g(st, fr):
            v = fr.regs[a]
            for i in idx:
                v = v[i]
            fr.regs[d] = v
        return g

    def i_insertvalue(self, p, d):
        t, a = self.tval(p)
        p.expect(',')
        _, v = self.tval(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))

        def ins(agg, path, x):
            l = list(agg)
            if len(path) == 1:
                l[path[0]] = x
            else:
                l[path[0]] = ins(l[path[0]], path[1:], x)
            return tuple(l)

        def g(st, fr):
            fr.regs[d] = ins(fr.regs[a], idx, fr.regs[v])
        return g

    def i_extractelement(self, p, d):
        t, a = self.tval(p)
        p.expect(',')
        _, i = self.tval(p)
        w = iw(t[2])

        def g(st, fr):
            v = fr.regs[a]
            k = fr.regs[i]
            if not isinstance(k, int):
                r = v[-1]
                for j in range(len(v) - 2, -1, -1):
                    r = ite(norm(k == j), v[j], r, w)
                fr.regs[d] = r
            else:
                fr.regs[d] = v[k]
        return g

    def i_insertelement(self, p, d):
        t, a = self.tval(p)
        p.expect(',')
        _, v = self.tval(p)
        p.expect(',')
        _, i = self.tval(p)

        def g(st, fr):
            l = list(fr.regs[a])
            k = fr.regs[i]
            if not isinstance(k, int):
                k = st.concretize(k, 64, 'lane')
            l[k] = fr.regs[v]
            fr.regs[d] = tuple(l)
        return g

    def i_shufflevector(self, p, d):
        t, a = self.tval(p)
        p.expect(',')
        _, b = self.tval(p)
        p.expect(',')
        mt = p.type()
        m = p.const(mt)
        n = t[1]

        def g(st, fr):
            x = fr.regs[a]
            y = fr.regs[b]
            fr.regs[d] = tuple(UNDEF if k is UNDEF else (x[k] if k < n else y[k - n]) for k in m)
        return g

    def i_fence(self, p, d):
        def g(st, fr):
            pass
        return g

    def i_atomicrmw(self, p, d):
        p.accept('volatile')
        op = p.next()
        _, a = self.tval(p)
        p.expect(',')
        t, v = self.tval(p)
        w = iw(t)

        def g(st, fr):
            r = fr.regs
            old = load_val(st, r[a], t)
            x = r[v]
            if op == 'xchg':
                new = x
            elif op in ('add', 'sub', 'and', 'or', 'xor'):
                new = binop(op, w)(old, x)
            else:
                raise Unsupported('atomicrmw ' + op)
            store_val(st, r[a], t, new)
            r[d] = old
        return g

    def i_cmpxchg(self, p, d):
        while p.peek() in ('weak', 'volatile'):
            p.next()
        _, a = self.tval(p)
        p.expect(',')
        t, c = self.tval(p)
        p.expect(',')
        _, n = self.tval(p)
        w = iw(t)

        def g(st, fr):
            r = fr.regs
            old = load_val(st, r[a], t)
            eq = icmp('eq', w)(old, r[c])
            if st.choose(tobool(eq)):
                store_val(st, r[a], t, r[n])
                r[d] = (old, 1)
            else:
                r[d] = (old, 0)
        return g

    def i_va_arg(self, p, d):
        raise Unsupported('va_arg')

    # ---- calls
    def i_call(self, p, d):
        return self.call(p, d, False)

    def i_invoke(self, p, d):
        return self.call(p, d, True)

    def call(self, p, d, invoke):
        while True:
            x = p.peek()
            if x in ('fastcc', 'coldcc', 'ccc') or x in FMF:
                p.next()
            elif x in PARAM_ATTRS or x in PARAM_ATTRS_P:
                p.skip_attrs()
            else:
                break
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        if p.peek() == 'asm':
            return self.asm(p, d, rt)
        callee_tok = p.peek()
        callee = None
        name = None
        if callee_tok[0] == '@':
            p.next()
            name = unq(callee_tok)
        else:
            callee = self.val(p, ('ptr',))
        p.expect('(')
        args = []
        types = []
        byval = []
        while not p.accept(')'):
            t = p.type()
            info = p.skip_attrs()
            if t[0] == 'metadata':
                p.next()
                args.append(self.cst(0))
            else:
                args.append(self.val(p, t))
            types.append(t)
            byval.append(info)
            p.accept(',')
        nt = ut = None
        if invoke:
            while p.peek() != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            nt = self.edge(p.next())
            p.expect('unwind')
            p.expect('label')
            ut = self.edge(p.next())
        eng = self.eng
        if rt[0] == 'void':
            d = -1
        if name is not None and name.startswith('llvm.'):
            from .intrin import intrinsic
            h = intrinsic(eng, name, types, rt)
            if h is None:
                return None_op
            if isinstance(h, str):
                return self.unsupported(h)

            def g(st, fr):
                r = fr.regs
                v = h(st, [r[i] for i in args])
                if d >= 0:
                    r[d] = v
                if nt is not None:
                    goto(fr, nt)
            return g
        anybyval = any(byval)
        cache = [None]
        rw = rt[1] if rt and rt[0] == 'i' else 64 if rt and rt[0] == 'ptr' else None
        if name is not None and name not in eng.natives and name in self.mod.aliases:
            name = self.mod.aliases[name]

        def g(st, fr):
            r = fr.regs
            av = [r[i] for i in args]
            for k, v in enumerate(av):
                if v is UNDEF:
                    av[k] = st.fresh('undefarg', iw(types[k]))
            if callee is not None:
                ad = r[callee]
                if not isinstance(ad, int):
                    ad = st.concretize(ad, 64, 'function pointer')
                if ad < 65536:
                    raise Bug('null-call', 'call through a null function pointer in ' + fr.fn.name)
                fn = eng.fn_at(st, ad)
            else:
                fn = cache[0]
                if fn is None:
                    ad = eng.sym_addr(name)
                    fn = cache[0] = eng.fn_at(st, ad)
            if anybyval:
                for k, bv in enumerate(byval):
                    if bv:
                        n = size_of(bv[1])
                        na = st.new_region(n, 'stack', None, 'byval')
                        fr.allocas.append(na >> REGION)
                        st.memcpy(na, av[k], n)
                        av[k] = na
            if callable(fn):
                if not getattr(fn, 'nofork', False):
                    fr.pc -= 1
                    st.snap = st.fork()
                    fr = st.frames[-1]
                    fr.pc += 1
                st.x['cs'] = (d, nt, ut)
                try:
                    v = fn(st, *av)
                except CxxThrow as e:
                    e.utgt = ut
                    raise
                st.snap = None
                if v is PUSHED:
                    t = st.frames[-1]
                    # the frame directly above this one delivers the result
                    i = len(st.frames) - 1
                    while st.frames[i - 1] is not fr:
                        i -= 1
                    t = st.frames[i]
                    t.dst = d
                    t.ntgt = nt
                    t.utgt = ut
                    return True
                if d >= 0:
                    if rw is not None and getattr(fn, 'wide', False):
                        v = v & ((1 << rw) - 1) if isinstance(v, int) else v if v.size() <= rw else norm(Extract(rw - 1, 0, v))
                    fr.regs[d] = v
                if nt is not None:
                    goto(fr, nt)
                return
            eng.push_guest(st, fn, av, d, nt, ut)
            return True
        return g

    def asm(self, p, d, rt):
        p.next()
        txt = []
        while p.peek() != '(':
            txt.append(p.next())
        args = []
        p.next()
        while not p.accept(')'):
            t, a = self.tval(p)
            args.append(a)
            p.accept(',')
        s = ' '.join(txt)
        eng = self.eng
        h = eng.asm_handler(s, rt) if hasattr(eng, 'asm_handler') else None
        if h is None:
            return self.unsupported('inline asm ' + s)

        def g(st, fr):
            r = fr.regs
            v = h(st, [r[i] for i in args])
            if d >= 0:
                r[d] = v
        return g

    def i_landingpad(self, p, d):
        def g(st, fr):
            ptr, sel, ti = fr.exc
            if sel[0] == 'm':
                s = st.eng.typeid(sel[1])
            else:
                s = 0
            st.x['exc_ti', ptr] = ti
            fr.regs[d] = (ptr, s)
        return g

    def i_resume(self, p, d):
        t, a = self.tval(p)

        def g(st, fr):
            v = fr.regs[a]
            raise CxxThrow(v[0], st.x['exc_ti', v[0]])
        return g


def None_op(st, fr):
    pass


def gep_sym(b, const, terms):
    acc = const
    e = None
    if isinstance(b, int):
        acc += b
    else:
        e = b
    for x, w, sz in terms:
        if isinstance(x, int):
            acc += sext_int(x, w) * sz
            continue
        if w < 64:
            x = SignExt(64 - w, x)
        t = x if sz == 1 else x * BitVecVal(sz, 64)
        e = t if e is None else e + t
    acc &= M64
    if e is None:
        return acc
    if acc:
        e = e + BitVecVal(acc, 64)
    return norm(e)


def check_align(st, ad, al, what):
    if isinstance(ad, int):
        if ad % al:
            raise Bug('misaligned', 'aligned vector %s (align %d) at a misaligned address' % (what, al))
        return
    if st.choose((ad & BitVecVal(al - 1, 64)) != 0):
        raise Bug('misaligned', 'aligned vector %s (align %d) at a misaligned address' % (what, al))


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBINOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'}
CASTS = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext',
         'fptrunc', 'addrspacecast'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def compile_function(eng, fn):
    FnCompiler(eng, fn).compile()
