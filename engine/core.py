"""Symbolic executor for LLVM IR: states, memory, solver, instruction compiler."""
import time
import re
import z3
from z3 import BitVecVal, BitVec, BoolVal, If, Not, And, Or, Xor, Extract, Concat, ZeroExt, SignExt, simplify
from .ir import (P, UNDEF, tokenize, size_of, align_of, field_offsets, iw, split_blocks, strip_meta, PARAM_ATTRS,
                 PARAM_ATTRS_P, unq, zero_of, undef_of)

M64 = (1 << 64) - 1
REGION = 24


class ForkEx(Exception):
    def __init__(self, cond, val, model):
        self.cond = cond
        self.val = val
        self.model = model


class Bug(Exception):
    def __init__(self, kind, msg, cond=None):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind
        self.msg = msg


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class CxxThrow(Exception):
    def __init__(self, ptr, tinfo):
        self.ptr = ptr
        self.tinfo = tinfo
        self.utgt = None


class PathEnd(Exception):
    pass


class _Pushed:
    pass


PUSHED = _Pushed()


# ------------------------------------------------------------------ values
def is_sym(v):
    return not isinstance(v, int)


def tobv(v, w):
    if isinstance(v, int):
        return BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return If(v, BitVecVal(1, w), BitVecVal(0, w))
    return v


def tobool(v):
    if isinstance(v, int):
        return BoolVal(v != 0)
    if isinstance(v, z3.BoolRef):
        return v
    return v != 0


TWO = [False]  # two-valued inputs: keep values in the form If(condition, hi, lo)


def is_ite2(e):
    return z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_bv_value(e.arg(1)) and z3.is_bv_value(e.arg(2))


def _ites(e, out, depth):
    """the If(c, const, const) leaves of e by condition; False if there is anything else in it"""
    if z3.is_bv_value(e) or z3.is_true(e) or z3.is_false(e):
        return True
    if is_ite2(e):
        out.setdefault(e.arg(0).get_id(), (e.arg(0), []))[1].append(e)
        return len(out) <= 4
    if depth == 0 or e.num_args() == 0:
        return False
    return all(_ites(a, out, depth - 1) for a in e.children())


def _shannon(conds, f):
    if not conds:
        return f(())
    c = conds[0]
    t = _shannon(conds[1:], lambda r: f((True,) + r))
    e = _shannon(conds[1:], lambda r: f((False,) + r))
    if t is e or (not isinstance(t, bool) and not isinstance(e, bool) and t.eq(e)):
        return t
    if t is True:
        return c if e is False else Or(c, e)
    if t is False:
        return Not(c) if e is True else And(Not(c), e)
    if e is False:
        return And(c, t)
    if e is True:
        return Or(Not(c), t)
    return If(c, t, e)


def two_norm(e):
    out = {}
    if not _ites(e, out, 4):
        return e
    if not out or is_ite2(e):
        return e
    groups = list(out.values())
    val = {}

    def ev(bits):
        sub = [(x, x.arg(1) if b else x.arg(2)) for (c, xs), b in zip(groups, bits) for x in xs]
        return simplify(z3.substitute(e, *sub))
    import itertools
    for bits in itertools.product((True, False), repeat=len(groups)):
        val[bits] = ev(bits)
    conds = [c for c, xs in groups]
    if z3.is_bool(e):
        if not all(z3.is_true(v) or z3.is_false(v) for v in val.values()):
            return e
        r = _shannon(conds, lambda b: z3.is_true(val[b]))
        return BoolVal(r) if isinstance(r, bool) else r
    if not all(z3.is_bv_value(v) for v in val.values()):
        return e
    ks = sorted({v.as_long() for v in val.values()})
    w = e.size()
    if len(ks) == 1:
        return BitVecVal(ks[0], w)
    if len(ks) > 2:
        return e
    r = _shannon(conds, lambda b: val[b].as_long() == ks[1])
    return If(r, BitVecVal(ks[1], w), BitVecVal(ks[0], w))


def norm(e):
    """z3 expr -> python int if constant"""
    if TWO[0]:
        e = two_norm(e)
    e = simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def sext_int(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('base', 'size', 'cells', 'init', 'alive', 'kind', 'owner', 'maxw', 'name', 'ro', 'site')

    def __init__(self, base, size, kind, init=None, name='', ro=False):
        self.base = base
        self.size = size
        self.cells = {}
        self.init = init  # None: uninitialised; bytes: content; 0: zero filled
        self.alive = True
        self.kind = kind
        self.owner = None
        self.maxw = 1
        self.name = name
        self.ro = ro

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.base = self.base
        o.size = self.size
        o.cells = dict(self.cells)
        o.init = self.init
        o.alive = self.alive
        o.kind = self.kind
        o.owner = owner
        o.maxw = self.maxw
        o.name = self.name
        o.ro = self.ro
        return o


class Frame:
    __slots__ = ('fn', 'code', 'pc', 'regs', 'dst', 'ntgt', 'utgt', 'allocas', 'owner', 'va', 'host', 'exc')

    def clone(self, owner):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.code = self.code
        f.pc = self.pc
        f.regs = list(self.regs)
        f.dst = self.dst
        f.ntgt = self.ntgt
        f.utgt = self.utgt
        f.allocas = list(self.allocas)
        f.owner = owner
        f.va = self.va
        f.host = self.host
        f.exc = self.exc
        return f


class HostFrame:
    """A frame whose behaviour is python code: a resumable state machine.
    step(st, hf, ret) is called with the value returned by the last pushed call (None the first time)."""
    __slots__ = ('fn', 'step', 'vars', 'dst', 'ntgt', 'utgt', 'owner', 'pend', 'allocas')

    def clone(self, owner):
        f = HostFrame.__new__(HostFrame)
        f.fn = self.fn
        f.step = self.step
        f.vars = dict(self.vars)
        for k, v in f.vars.items():
            if type(v) is list:
                f.vars[k] = list(v)
            elif type(v) is dict:
                f.vars[k] = dict(v)
        f.dst = self.dst
        f.ntgt = self.ntgt
        f.utgt = self.utgt
        f.owner = owner
        f.pend = self.pend
        f.allocas = ()
        return f


class Solv:
    """incremental QF_BV solver; what it cannot decide goes to the general solver"""

    def __init__(self, timeout_ms=20000, logic='QF_BV'):
        self.timeout = timeout_ms
        self.s = z3.SolverFor(logic) if logic else z3.Solver()
        self.s.set('timeout', timeout_ms if not logic else timeout_ms // 2)
        self.logic = logic
        self.stack = []
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.second = 0

    def _sync(self, pc):
        st = self.stack
        n = min(len(st), len(pc))
        k = 0
        while k < n and st[k] is pc[k]:
            k += 1
        if k < len(st):
            self.s.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, extra=None):
        """-> (result, model)"""
        t = time.time()
        self._sync(pc)
        self.queries += 1
        if extra is not None:
            self.s.push()
            self.s.add(extra)
        try:
            r = self.s.check()
        except z3.Z3Exception:
            r = z3.unknown
        m = self.s.model() if r == z3.sat else None
        if extra is not None:
            self.s.pop()
        if r == z3.unknown and self.logic:
            self.second += 1
            s = z3.Solver()
            s.set('timeout', self.timeout)
            s.add(*pc)
            if extra is not None:
                s.add(extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
        self.time += time.time() - t
        if r == z3.unknown:
            self.unknown += 1
        return r, m


class State:
    def __init__(self, eng):
        self.eng = eng
        self.uid = object()
        self.mem = {}
        self.next_region = 0x10
        self.frames = []
        self.pc = []
        self.known = {}
        self.model = None
        self.nfresh = 0
        self.snap = None
        self.steps = 0
        self.x = {}  # extension scalars / immutable values (CPython model etc.)
        self.py = {}  # addr -> object info
        self.hret = None
        self.trace = []

    def fork(self):
        if self.frames:
            self.top()
        s = State.__new__(State)
        s.eng = self.eng
        s.uid = object()
        self.uid = object()
        s.mem = dict(self.mem)
        s.next_region = self.next_region
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = s.frames[-1].clone(s.uid)
            # ours must not share with s: s cloned its top, the rest is cloned on return
            self.frames[-1].owner = self.uid
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.model = self.model
        s.nfresh = self.nfresh
        s.snap = None
        s.steps = self.steps
        s.x = dict(self.x)
        s.py = dict(self.py)
        s.hret = self.hret
        s.trace = list(self.trace)
        return s

    # ---------------- constraints
    def fresh(self, name, w):
        self.nfresh += 1
        n = '%s!%d' % (name, self.nfresh)
        return z3.Bool(n) if w == 1 else BitVec(n, w)

    def add(self, c, model=None):
        """assume c (must be feasible)"""
        self.pc.append(c)
        self.known[c.get_id()] = True
        if z3.is_not(c):
            self.known[c.arg(0).get_id()] = False
        if model is not None:
            self.model = model
        elif self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def get_model(self):
        if self.model is None:
            r, m = self.eng.solv.check(self.pc)
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Unsupported('solver unknown')
            self.model = m
        return self.model

    def assume(self, c):
        """assume c, checking feasibility"""
        if isinstance(c, (bool, int)):
            if not c:
                raise Infeasible()
            return
        c = simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        self.get_model()

    def feasible(self, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        c = simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None:
            return k
        m = self.get_model()
        if z3.is_true(m.eval(c, model_completion=True)):
            return True
        r, m = self.eng.solv.check(self.pc, c)
        if r == z3.unknown:
            raise Unsupported('solver unknown')
        return r == z3.sat

    def must(self, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        return not self.feasible(Not(c))

    def choose(self, c):
        """decide a condition, forking when both sides are feasible"""
        if isinstance(c, (bool, int)):
            return bool(c)
        c = simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None:
            return k
        neg = z3.is_not(c)
        if neg:
            k = self.known.get(c.arg(0).get_id())
            if k is not None:
                return not k
        m = self.get_model()
        val = z3.is_true(m.eval(c, model_completion=True))
        other = Not(c) if val else c
        r, m2 = self.eng.solv.check(self.pc, other)
        if r == z3.unknown:
            raise Unsupported('solver unknown')
        if r == z3.unsat:
            self.known[c.get_id()] = val
            self.eng.keep.append(c)
            return val
        raise ForkEx(c, val, m2)

    def fork_free(self, tag):
        """unconstrained nondeterministic boolean"""
        return self.choose(self.fresh(tag, 1))

    def concretize(self, v, limit=64, what='value'):
        """pick a concrete value for v, forking over all feasible ones"""
        if isinstance(v, int):
            return v
        v = simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        n = 0
        while True:
            c = self.x.get(('conc', v.get_id()))
            if c is not None:
                return c
            m = self.get_model()
            cv = m.eval(v, model_completion=True)
            n += 1
            if n > limit:
                raise Unsupported('too many values for ' + what)
            # count how many alternatives have been excluded on this path
            key = ('concn', v.get_id())
            cnt = self.x.get(key, 0)
            if cnt > limit:
                raise Unsupported('too many values for ' + what)
            cond = (v == cv)
            self.eng.keep.append(cond)
            k = self.known.get(cond.get_id())
            if k is None:
                try:
                    k = self.choose(cond)
                except ForkEx as e:
                    e.concn = (key, cnt + 1)
                    raise
            if k:
                return cv.as_long()
            self.model = None

    # ---------------- memory
    def new_region(self, size, kind, init=None, name='', off=0, ro=False):
        r = self.next_region
        self.next_region += 1
        if isinstance(size, int) and size >= (1 << REGION) - 4096:
            n = (size >> REGION) + 2
            self.next_region += n
        base = (r << REGION) + off
        o = Obj(base, size, kind, init, name, ro)
        o.owner = self.uid
        self.mem[r] = o
        return base

    def obj(self, addr):
        return self.region_obj(addr >> REGION)

    def wobj(self, r):
        o = self.mem.get(r)
        if o is None:
            o = self.eng.global_objs[r]
        if o.owner is not self.uid:
            o = o.clone(self.uid)
            self.mem[r] = o
        return o

    def find(self, addr, n, what):
        """resolve (addr, n) to (obj, offset); forks on symbolic addresses"""
        if not isinstance(addr, int):
            addr = self.resolve(addr, n, what)
        o = self.mem.get(addr >> REGION)
        if o is None:
            o = self.eng.global_objs.get(addr >> REGION)
        if o is None:
            # large objects span regions
            o = self.big(addr)
            if o is None:
                self.bad(addr, n, what, None)
        if not o.alive:
            raise Bug('use-after-free', '%s of %d bytes in freed %s' % (what, n, o.name or o.kind))
        off = addr - o.base
        sz = o.size
        if isinstance(sz, int):
            if off < 0 or off + n > sz:
                self.bad(addr, n, what, o)
        else:
            if off < 0:
                self.bad(addr, n, what, o)
            if not self.choose(z3.ULE(BitVecVal(off + n, 64), sz)):
                self.bad(addr, n, what, o)
        return o, off

    def big(self, addr):
        for o in self.eng.bigobjs(self):
            if o.base <= addr < o.base + o.size:
                return o
        return None

    def bad(self, addr, n, what, o):
        if addr < 65536:
            raise Bug('null-deref', '%s of %d bytes at address %#x' % (what, n, addr))
        if o is None:
            raise Bug('wild-access', '%s of %d bytes at address %#x' % (what, n, addr))
        raise Bug('out-of-bounds', '%s of %d bytes at offset %d of %s (%s bytes)' % (
            what, n, addr - o.base, o.name or o.kind, o.size))

    def resolve(self, addr, n, what):
        """choose a concrete address for a symbolic one (forks); out-of-bounds values are explored too"""
        addr = simplify(addr)
        if z3.is_bv_value(addr):
            return addr.as_long()
        for _ in range(40):
            m = self.get_model()
            a = m.eval(addr, model_completion=True).as_long()
            o = self.region_obj(a >> REGION)
            if o is None:
                c = addr == a
                self.eng.keep.append(c)
                if self.choose(c):
                    return a
                self.model = None
                continue
            szb = tobv(o.size, 64)
            b = BitVecVal(o.base, 64)
            inb = And(z3.UGE(addr, b), z3.ULE(addr - b + n, szb), z3.ULE(addr - b, szb))
            self.eng.keep.append(inb)
            if self.choose(inb):
                return self.concretize(addr, 80, 'address')
            m = self.get_model()
            a2 = m.eval(addr, model_completion=True).as_long()
            o2 = self.region_obj(a2 >> REGION)
            if o2 is o or o2 is None:
                self.assume(addr == a2)
                return a2
        raise Unsupported('symbolic address')

    def region_obj(self, r):
        o = self.mem.get(r)
        if o is None:
            o = self.eng.global_objs.get(r)
        return o

    def load_bytes_val(self, o, off, n):
        """value of n bytes (int or BV of 8n bits)"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return self._load_slow(o, off, n)

    def _load_slow(self, o, off, n):
        cells = o.cells
        # gather pieces, little endian: list of (value, nbytes)
        pieces = []
        i = off
        end = off + n
        maxw = o.maxw
        while i < end:
            hit = None
            for k in range(i, i - maxw, -1):
                c = cells.get(k)
                if c is not None:
                    if k + c[0] > i:
                        hit = (k, c)
                    break
            if hit is not None:
                k, (w, v) = hit
                lo = i - k
                hi = min(w, end - k)
                if lo == 0 and hi == w:
                    pieces.append((v, w))
                elif isinstance(v, int):
                    pieces.append(((v >> (8 * lo)) & ((1 << (8 * (hi - lo))) - 1), hi - lo))
                else:
                    pieces.append((norm(Extract(8 * hi - 1, 8 * lo, v)), hi - lo))
                i += hi - lo
            else:
                # gap up to the next cell
                j = i + 1
                while j < end and j not in cells:
                    j += 1
                g = j - i
                init = o.init
                if init is None:
                    v = self.uninit(o, i, g)
                    # remember it, so that a second read sees the same value
                    oo = self.wobj(o.base >> REGION) if o.owner is not self.uid else o
                    oo.cells[i] = (g, v)
                    oo.maxw = max(oo.maxw, g)
                    o = oo
                    cells = o.cells
                    maxw = o.maxw
                    pieces.append((v, g))
                elif init == 0:
                    pieces.append((0, g))
                else:
                    pieces.append((int.from_bytes(init[i:j], 'little'), g))
                i = j
        if len(pieces) == 1:
            return pieces[0][0]
        if all(isinstance(v, int) for v, _ in pieces):
            r = 0
            s = 0
            for v, w in pieces:
                r |= v << s
                s += 8 * w
            return r
        return norm(Concat(*[tobv(v, 8 * w) for v, w in reversed(pieces)]))

    def uninit(self, o, off, n):
        return self.fresh('uninit', 8 * n)

    def load(self, addr, n, what='read'):
        o, off = self.find(addr, n, what)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return self._load_slow(o, off, n)

    def store(self, addr, n, v, what='write'):
        o, off = self.find(addr, n, what)
        if o.owner is not self.uid:
            o = self.wobj(o.base >> REGION)
        if o.ro:
            raise Bug('write-to-constant', 'write of %d bytes to %s' % (n, o.name))
        if o.kind == 'pyobj' and not self.x.get('gil', True):
            raise Bug('race', '%s written without holding the GIL' % (o.name or 'an object'))
        self.put(o, off, n, v)

    def put(self, o, off, n, v):
        if isinstance(v, z3.BoolRef):
            v = If(v, BitVecVal(1, 8 * n), BitVecVal(0, 8 * n))
        elif v is UNDEF:
            v = self.fresh('undef', 8 * n)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        self.clear_range(o, off, n)
        cells[off] = (n, v)
        if n > o.maxw:
            o.maxw = n

    def clear_range(self, o, off, n):
        """remove cells overlapping [off, off+n), keeping the parts outside"""
        cells = o.cells
        if not cells:
            return
        end = off + n
        ks = []
        if n > 512 and n > len(cells):
            ks = [k for k, c in cells.items() if k < end and k + c[0] > off]
        else:
            for k in range(off - o.maxw + 1, end):
                c = cells.get(k)
                if c is not None and k + c[0] > off:
                    ks.append(k)
        for k in ks:
            w, v = cells.pop(k)
            if k < off:
                g = off - k
                cells[k] = (g, (v & ((1 << 8 * g) - 1)) if isinstance(v, int) else norm(Extract(8 * g - 1, 0, v)))
            if k + w > end:
                lo = end - k
                cells[end] = (w - lo, (v >> (8 * lo)) if isinstance(v, int) else norm(Extract(8 * w - 1, 8 * lo, v)))

    def memcpy(self, dst, src, n, what='memcpy'):
        if n == 0:
            return
        so, soff = self.find(src, n, what + ' read')
        do, doff = self.find(dst, n, what + ' write')
        if do.owner is not self.uid:
            same = so is do
            do = self.wobj(do.base >> REGION)
            if same:
                so = do
        if do.ro:
            raise Bug('write-to-constant', what)
        # collect the source pieces first (handles overlap)
        pieces = []
        i = soff
        end = soff + n
        # align to cell structure
        while i < end:
            c = so.cells.get(i)
            if c is not None and i + c[0] <= end:
                pieces.append((i - soff, c[0], c[1]))
                i += c[0]
                continue
            # byte or gap
            if c is None and so.init is not None:
                # is i inside a cell that starts earlier?
                inside = False
                for k in range(i - 1, i - so.maxw, -1):
                    cc = so.cells.get(k)
                    if cc is not None:
                        inside = k + cc[0] > i
                        break
                if not inside:
                    j = i + 1
                    while j < end and j not in so.cells and j - i < 8:
                        j += 1
                    g = j - i
                    v = 0 if so.init == 0 else int.from_bytes(so.init[i:j], 'little')
                    pieces.append((i - soff, g, v))
                    i = j
                    continue
            if c is None and so.init is None:
                # uninitialised source bytes: copy lazily as one 'uninit' piece per 8 bytes
                pass
            g = 1
            v = self._load_slow(so, i, 1)
            so = self.region_obj(so.base >> REGION)
            pieces.append((i - soff, g, v))
            i += 1
        do = self.wobj(do.base >> REGION)
        self.clear_range(do, doff, n)
        for o_, g, v in pieces:
            do.cells[doff + o_] = (g, v)
            if g > do.maxw:
                do.maxw = g

    def memset(self, dst, byte, n):
        if n == 0:
            return
        o, off = self.find(dst, n, 'memset write')
        o = self.wobj(o.base >> REGION)
        if off == 0 and n == o.size and byte == 0:
            o.cells = {}
            o.init = 0
            return
        self.clear_range(o, off, n)
        i = 0
        while i < n:
            w = 8 if (n - i >= 8 and (off + i) % 8 == 0) else (4 if (n - i >= 4 and (off + i) % 4 == 0) else 1)
            if isinstance(byte, int):
                v = int.from_bytes(bytes([byte]) * w, 'little')
            else:
                v = byte if w == 1 else simplify(Concat(*[byte] * w))
            o.cells[off + i] = (w, v)
            o.maxw = max(o.maxw, w)
            i += w

    def read_cstr(self, addr, limit=4096):
        out = bytearray()
        while True:
            b = self.load(addr, 1)
            if not isinstance(b, int):
                b = self.concretize(b, 300, 'string byte')
            if b == 0:
                return bytes(out)
            out.append(b)
            addr += 1
            if len(out) > limit:
                raise Unsupported('long string')

    def free_region(self, addr):
        r = addr >> REGION
        o = self.wobj(r)
        o.alive = False

    # ---------------- frames
    def top(self):
        f = self.frames[-1]
        if f.owner is not self.uid:
            f = f.clone(self.uid)
            self.frames[-1] = f
        return f

    def push_host(self, step, vars, dst=-1, ntgt=None, utgt=None):
        f = HostFrame()
        f.fn = None
        f.step = step
        f.vars = vars
        f.dst = dst
        f.ntgt = ntgt
        f.utgt = utgt
        f.owner = self.uid
        f.pend = None
        f.allocas = ()
        self.frames.append(f)
        return PUSHED

    def call(self, target, args):
        """push a call to a guest function / native (address or Func). Result goes to the frame below."""
        eng = self.eng
        if isinstance(target, int):
            fn = eng.fn_at(self, target)
        else:
            fn = target
        if callable(fn):
            r = fn(self, *args)
            if r is PUSHED:
                return PUSHED
            self.ret_to_top(r)
            return PUSHED
        eng.push_guest(self, fn, args, -1, None, None)
        return PUSHED

    def ret_to_top(self, v):
        """deliver a value to the host frame on top"""
        f = self.top()
        f.pend = (v,)


# ------------------------------------------------------------------ engine
class Engine:
    def __init__(self, module, solver_timeout=20000, logic=None):
        self.mod = module
        module.sym_addr = self.sym_addr
        self.solv = Solv(solver_timeout, logic)
        self.keep = []
        self.sym = {}
        self.addr_name = {}
        self.isa = None
        self.natives = {}
        self.native_flags = {}
        self.base_state = State(self)
        self.fn_addr = {}
        self.worklist = []
        self.stats = {'paths': 0, 'forks': 0, 'instrs': 0, 'unsupported': 0, 'infeasible': 0, 'bugs': 0}
        self.max_steps = 3000000
        self.encoded = set()
        self.called_natives = set()
        self.pending_globals = []
        self._func_region = 0x2
        self._nfn = 0
        self.lazy_init = True
        self.global_objs = {}
        self.on_extern_global = None
        self.base_py = {}
        self.digits = {}

    # ---- symbols
    def sym_addr_global(self, name):
        a = self.sym.get(name)
        if a is None:
            a = self.on_extern_global(name)
            self.sym[name] = a
            self.addr_name[a] = name
        return a

    def sym_addr(self, name):
        a = self.sym.get(name)
        if a is not None:
            return a
        if name in self.mod.aliases:
            a = self.sym_addr(self.mod.aliases[name])
            self.sym[name] = a
            return a
        st = self.base_state
        if name in self.mod.funcs or name in self.natives or (name in self.mod.decls):
            self._nfn += 1
            a = (0x2 << REGION) + 16 * self._nfn
            self.sym[name] = a
            self.addr_name[a] = name
            return a
        if name in self.mod.globals:
            return self.make_global(name)
        if self.on_extern_global:
            a = self.on_extern_global(name)
            if a is not None:
                self.sym[name] = a
                self.addr_name[a] = name
                return a
        raise Unsupported('unknown symbol ' + name)

    def make_global(self, name):
        st = self.base_state
        rest = self.mod.globals[name]
        is_ext = re.match(r'(external|extern_weak)\b', rest) is not None
        if is_ext:
            a = self.on_extern_global(name) if self.on_extern_global else None
            if a is None:
                raise Unsupported('extern global ' + name)
            self.sym[name] = a
            self.addr_name[a] = name
            return a
        # allocate a fresh region first (self references), fill later
        r = self._gl_region = getattr(self, '_gl_region', 0x10000)
        self._gl_region += 1
        base = (r << REGION) + 64
        self.sym[name] = base
        self.addr_name[base] = name
        o = Obj(base, 0, 'global', None, name)
        self.global_objs[r] = o
        t, const, init, al = self.mod.parse_global(name)
        o.size = size_of(t)
        o.init = 0
        if init is not None:
            self.fill(o, 0, t, init)
        if const and all(isinstance(c[1], int) for c in o.cells.values()):
            buf = bytearray(o.size)
            for k, (w, v) in o.cells.items():
                buf[k:k + w] = v.to_bytes(w, 'little')
            o.init = bytes(buf)
            o.cells = {}
            o.ro = True
        return base

    def fill(self, o, off, t, v):
        k = t[0]
        if v is UNDEF:
            return
        if k == 'a':
            es = size_of(t[2])
            for i, x in enumerate(v if isinstance(v, tuple) else (0,) * 0):
                self.fill(o, off + i * es, t[2], x)
            return
        if k == 'v':
            es = iw(t[2]) // 8
            for i, x in enumerate(v):
                self.fill(o, off + i * es, t[2], x)
            return
        if k == 's':
            for fo, ft, x in zip(field_offsets(t), t[1], v):
                self.fill(o, off + fo, ft, x)
            return
        n = (iw(t) + 7) // 8
        if v != 0:
            o.cells[off] = (n, v)
            o.maxw = max(o.maxw, n)

    def bigobjs(self, st):
        return [o for o in st.mem.values() if isinstance(o.size, int) and o.size >= (1 << REGION) - 4096]

    def fn_at(self, st, addr):
        name = self.addr_name.get(addr)
        if name is None:
            raise Bug('wild-call', 'call to address %#x' % addr)
        f = self.natives.get(name)
        if f is not None:
            self.called_natives.add(name)
            return f
        f = self.mod.funcs.get(name)
        if f is not None:
            return f
        f = self.native_fallback(name)
        if f is not None:
            self.called_natives.add(name)
            return f
        raise Unsupported('no model for external function ' + name)

    def native_fallback(self, name):
        return None

    def native_addr(self, name, fn=None):
        if fn is not None:
            self.natives[name] = fn
        a = self.sym.get(name)
        if a is None:
            self._nfn += 1
            a = (0x2 << REGION) + 16 * self._nfn
            self.sym[name] = a
            self.addr_name[a] = name
        return a

    # ---- calls
    def push_guest(self, st, fn, args, dst, ntgt, utgt):
        if fn.compiled is None:
            compile_function(self, fn)
            self.encoded.add(fn.name)
        fr = Frame.__new__(Frame)
        fr.fn = fn
        fr.code = fn.code
        fr.pc = 0
        regs = list(fn.template)
        np = len(fn.params)
        if len(args) < np:
            raise Unsupported('call arity of ' + fn.name)
        for i in range(np):
            regs[i] = args[i]
        fr.va = list(args[np:]) if fn.varargs else None
        fr.regs = regs
        fr.dst = dst
        fr.ntgt = ntgt
        fr.utgt = utgt
        fr.allocas = []
        fr.owner = st.uid
        fr.host = None
        fr.exc = None
        if len(st.frames) > 400:
            raise Bug('stack-overflow', 'recursion depth')
        st.frames.append(fr)

    def do_return(self, st, v):
        fr = st.frames.pop()
        for r in fr.allocas:
            st.mem.pop(r, None)
        if not st.frames:
            raise PathEnd()
        top = st.frames[-1]
        if top.owner is not st.uid:
            top = top.clone(st.uid)
            st.frames[-1] = top
        if type(top) is HostFrame:
            top.pend = (v,)
            return
        if fr.dst >= 0:
            top.regs[fr.dst] = v
        if fr.ntgt is not None:
            goto(top, fr.ntgt)

    def host_return(self, st, v):
        return self.do_return(st, v)

    def unwind(self, st, e):
        """propagate a C++ exception: e.utgt is the unwind target of the call that threw, in the top frame"""
        u = e.utgt
        while st.frames:
            fr = st.frames[-1]
            if type(fr) is HostFrame:
                if fr.vars.get('catch'):
                    top = st.top()
                    top.pend = (('exc', e.ptr, e.tinfo),)
                    return
                raise Bug('cxx-exception-escape', 'a C++ exception (%s) leaves the extension into its caller' %
                          self.addr_name.get(e.tinfo, e.tinfo))
            if u is not None:
                sel = self.match_lp(st, u[2], e)
                if sel is not None:
                    top = st.top()
                    top.exc = (e.ptr, sel, e.tinfo)
                    goto(top, u)
                    return
            st.frames.pop()
            for r in fr.allocas:
                st.mem.pop(r, None)
            u = fr.utgt
        raise Bug('cxx-exception-escape', 'uncaught C++ exception')

    def match_lp(self, st, lp, e):
        cleanup, clauses = lp
        for kind, a in clauses:
            if kind == 'catch':
                if a == 0 or self.ti_derives(st, e.tinfo, a):
                    return ('m', a)
        if cleanup:
            return ('c', 0)
        return None

    TI_BASES = {
        '_ZTISt9bad_alloc': ['_ZTISt9exception'],
        '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
        '_ZTISt11logic_error': ['_ZTISt9exception'],
        '_ZTISt13runtime_error': ['_ZTISt9exception'],
        '_ZTISt12length_error': ['_ZTISt11logic_error'],
        '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
        '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
        '_ZTISt12domain_error': ['_ZTISt11logic_error'],
        '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
        '_ZTISt11range_error': ['_ZTISt13runtime_error'],
        '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
        '_ZTISt17bad_function_call': ['_ZTISt9exception'],
        '_ZTISt9exception': [],
    }

    def ti_derives(self, st, a, b):
        if a == b:
            return True
        name = self.addr_name.get(a)
        if name in self.TI_BASES:
            return any(self.ti_derives(st, self.sym_addr(x), b) for x in self.TI_BASES[name])
        o = st.obj(a)
        if o is not None and o.size == 24 and isinstance(o.size, int):
            return self.ti_derives(st, st.load(a + 16, 8), b)
        return False

    # ---- main loop
    def fork_on(self, st, e):
        """handle ForkEx: returns the state to continue with"""
        self.stats['forks'] += 1
        if st.snap is not None:
            cur = st.snap
            st.snap = None
        else:
            cur = st
        cur.snap = None
        alt = cur.fork()
        c = e.cond
        self.keep.append(c)
        nc = Not(c)
        if e.val:
            cur.add(c, cur.model)
            alt.add(nc, e.model)
        else:
            cur.add(nc, cur.model)
            alt.add(c, e.model)
        cn = getattr(e, 'concn', None)
        if cn is not None:
            alt.x[cn[0]] = cn[1]
        self.worklist.append(alt)
        return cur

    def run_state(self, st, on_done, on_bug, on_unsupported):
        self.cur = st
        steps0 = st.steps
        nsteps = 0
        try:
            while True:
                try:
                    while True:
                        fr = st.frames[-1]
                        if fr.owner is not st.uid:
                            fr = fr.clone(st.uid)
                            st.frames[-1] = fr
                        if type(fr) is HostFrame:
                            nsteps += 1
                            if st.snap is None:
                                st.snap = st.fork()
                                fr = st.frames[-1]
                                fr.owner = st.uid
                            pend = fr.pend
                            fr.pend = None
                            fr.step(st, fr, pend[0] if pend is not None else None)
                            st.snap = None
                            continue
                        code = fr.code
                        while True:
                            pc = fr.pc
                            fr.pc = pc + 1
                            nsteps += 1
                            if code[pc](st, fr):
                                break
                        if nsteps > 10000:
                            st.steps += nsteps
                            self.stats['instrs'] += nsteps
                            nsteps = 0
                            if st.steps > st.x.get('limit', self.max_steps):
                                raise Bug('nontermination', 'step limit exceeded')
                            self.check_deadline()
                except ForkEx as e:
                    if st.snap is None:
                        st.frames[-1].pc -= 1
                    st = self.fork_on(st, e)
                    self.cur = st
                except CxxThrow as e:
                    st.snap = None
                    self.unwind(st, e)
        except PathEnd:
            self.stats['paths'] += 1
            st.snap = None
            on_done(st)
        except Infeasible:
            self.stats['infeasible'] += 1
        except Bug as e:
            self.stats['bugs'] += 1
            st.snap = None
            on_bug(st, e)
        except (Unsupported, NotImplementedError) as e:
            self.stats['unsupported'] += 1
            on_unsupported(st, e)
        except z3.Z3Exception as e:
            self.stats['unsupported'] += 1
            on_unsupported(st, e)
        self.stats['instrs'] += nsteps

    deadline = None

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    def explore(self, st, on_done, on_bug, on_unsupported, max_paths=100000):
        self.worklist = [st]
        n = 0
        while self.worklist:
            s = self.worklist.pop()
            n += 1
            if n > max_paths:
                on_unsupported(s, Unsupported('path budget exhausted'))
                self.stats['unsupported'] += len(self.worklist)
                break
            if self.deadline and time.time() > self.deadline:
                on_unsupported(s, Unsupported('time budget exhausted'))
                self.stats['unsupported'] += len(self.worklist)
                break
            self.run_state(s, on_done, on_bug, on_unsupported)
        self.cur = None
        return n


def goto(fr, tgt):
    """tgt = (pc, phi copies, lp)"""
    cp = tgt[1]
    if cp:
        regs = fr.regs
        if len(cp) == 1:
            d, s = cp[0]
            regs[d] = regs[s]
        else:
            vals = [regs[s] for _, s in cp]
            for (d, _), v in zip(cp, vals):
                regs[d] = v
    fr.pc = tgt[0]


from .compile import compile_function  # noqa: E402
