"""Symbolic driver: runs a scenario (a list of python level operations on symbolic values) against the encoded
extension, dispatching through the type slots exactly as the interpreter does, in lock step with the reference model."""
import z3
from z3 import BitVec, BitVecVal
from .core import (State, Bug, Unsupported, Infeasible, PUSHED, PathEnd, norm, tobv, sext_int, REGION)
from . import cpy, core
from .build import CPUS
from .cpy import (W, TP, SQ, MP, info, kind, set_err, incref, decref, T, new_long, new_obj, new_list_raw,
                  new_tuple_raw, new_str, new_bytes, new_slice, new_float, slot, sqslot, mpslot)
from .spec import Spec, SpecErr, Undefined, And_, Or_, NONE
from .specrun import run_spec, mutates, names_in, on_raise

SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
OPCODE = {'lt': 0, 'le': 1, 'eq': 2, 'ne': 3, 'gt': 4, 'ge': 5}


class Violation(Bug):
    """the outcome differs from the reference model"""


# ------------------------------------------------------------------ discovery of the extension's types


def set_cpu(eng, cpu):
    """make cpuid / xgetbv return the values of one of the CPUS (or symbolic ones)"""
    c = CPUS.get(cpu)

    def asm_handler(txt, rt):
        if 'cpuid' in txt:
            def h(st, args):
                leaf = args[0]
                sub = args[1] if len(args) > 1 else 0
                if st.x.get('cpusym'):
                    return sym_cpuid(st, leaf, sub)
                if c is None:
                    return st.eng.cpuid(st, leaf, sub)
                if leaf == 0:
                    return (16, 0, 0, 0)
                if leaf == 1:
                    return (0, 0, c[0], 0xffffffff)
                if leaf == 7:
                    return (1, c[1], 0xffffffff, 0)
                return (0, 0, 0, 0)
            return h
        if 'xgetbv' in txt:
            def h2(st, args):
                v = eng.xgetbv(st, args[0] if args else 0)
                return (norm(z3.Extract(31, 0, tobv(v, 64))), norm(z3.Extract(63, 32, tobv(v, 64))))
            return h2
        return None
    eng.asm_handler = asm_handler
    if c is not None:
        eng.xgetbv = lambda st, i: sym_xgetbv(st, i) if st.x.get('cpusym') else c[2]


def sym_cpuid(st, leaf, sub):
    cp = st.x['cpusym']
    if not isinstance(leaf, int):
        leaf = st.concretize(leaf, 8, 'cpuid leaf')
    if leaf == 7 and not isinstance(sub, int):
        sub = st.concretize(sub, 8, 'cpuid sub leaf')

    def other(r):
        return BitVec('cpuid:%x:%s:%s' % (leaf, sub if leaf == 7 else '', r), 32)
    if leaf == 0:
        return (cp[0], other('b'), other('c'), other('d'))
    if leaf == 1:
        return (other('a'), other('b'), cp[1], other('d'))
    if leaf == 7 and sub == 0:
        return (other('a'), cp[2], other('c'), other('d'))
    return tuple(other(r) for r in 'abcd')


def sym_xgetbv(st, i):
    cp = st.x['cpusym']
    ok = z3.And(z3.UGE(cp[0], 1), cp[1] & (1 << 27) != 0)
    if not st.must(ok):
        st.pc.append(z3.Not(ok))
        st.model = st.eng.solv.check(st.pc)[1]
        raise Bug('trap', 'xgetbv is executed although the operating system has not enabled it')
    if i != 0:
        return BitVec('xgetbv:%s' % i, 64)
    return cp[3]


def isa_check(st, level):
    """an instruction of this vector level is about to run"""
    cp = st.x.get('cpusym')
    if cp is None or level in st.x.get('isa_ok', ()):
        return
    from .memspec import cpu_flags
    f = cpu_flags(*cp)
    ok = f['isAVX512Supported']
    if level != 'avx512':
        ok = z3.Or(ok, f['isAVX2Supported'])
    if level == 'ssse3':
        ok = z3.Or(ok, f['isSSSE3Supported'])
    if not st.must(ok):
        st.pc.append(z3.Not(ok))
        st.model = st.eng.solv.check(st.pc)[1]
        raise Bug('isa', '%s instructions are executed although they are not reported as supported' % level)
    st.x['isa_ok'] = st.x.get('isa_ok', ()) + (level,)


def run_fn(eng, fn, args=()):
    """run a guest function to completion on the base state (single path expected)"""
    st = eng.base_state
    out = {}

    def step(s, hf, ret):
        if not hf.vars.get('go'):
            hf.vars['go'] = 1
            s.call(fn, args)
            return
        out['st'] = s
        out['r'] = ret
        s.eng.host_return(s, 0)
    st.push_host(step, {})
    errs = []

    def bad(s, e):
        errs.append(e)
    eng.explore(st, lambda s: None, bad, bad)
    if errs:
        raise Unsupported('initialiser %s: %s' % (getattr(fn, 'name', fn), errs[0]))
    st = out['st']
    st.frames = []
    st.snap = None
    eng.base_state = st
    return out['r']


LISTS = ('IntArrayList', 'BigIntArrayList', 'IntLinkedList', 'ObjectArrayList', 'ObjectLinkedList')


def subclass(st, base):
    """the type made by class Sub(Base): pass: every slot is inherited"""
    n = st.obj(base).size & ~7
    a = st.new_region(n, 'pyobj', None, 'subclass', 16)
    for i in range(0, n, 8):
        st.store(a + i, 8, st.load(base + i, 8))
    st.store(a, 8, 1 << 40)
    st.store(a + TP['tp_base'], 8, base)
    st.store(a + TP['tp_flags'], 8, st.load(base + TP['tp_flags'], 8) | 1 << 9)
    if base in st.x.get('ready', ()):
        st.x['ready'] = st.x['ready'] | {a}
    return a


def discover(eng, cpu='avx512'):
    """run the static constructors and the module initialiser; returns {type name: address}"""
    set_cpu(eng, cpu)
    for c in eng.mod.ctors:
        run_fn(eng, eng.mod.funcs[c])
    for n in ('PyInit_SIMDLowAVX512',):
        if n not in eng.mod.funcs:
            eng.natives[n] = lambda st: cpy.module_create(st, 0, 0)
    run_fn(eng, eng.mod.funcs['PyInit___pyfastutil'])
    st = eng.base_state
    types = {}
    mods = {}
    for k, v in st.x.get('modobj', ()):
        if kind(st, v) == 'module':
            mods[k] = v
        else:
            types[k] = v
    for k in LISTS:
        if k in types:
            types['Sub' + k] = subclass(st, types[k])
    for k, v in types.items():
        eng.type_names[v] = k
    eng.guest_types = types
    eng.guest_mods = mods
    return types


# ------------------------------------------------------------------ values
class Ctx:
    """per exploration context shared by all paths"""

    def __init__(self, eng, scen):
        self.eng = eng
        self.scen = scen
        core.TWO[0] = 'two' in scen
        self.bv = {}
        self.ranks = {}
        self.constraints = []
        for n, d in scen['inputs'].items():
            if d[0] == 'int':
                if 'two' in scen:
                    self.bv[n] = z3.If(z3.Bool('in:' + n), BitVecVal(d[2], W), BitVecVal(d[1], W))
                    continue
                b = BitVec('in:' + n, W)
                self.bv[n] = b
                self.constraints += [b >= d[1], b <= d[2]]
            elif d[0] == 'obj':
                b = BitVec('rank:' + n, 8)
                self.ranks[n] = b
                self.constraints += [b >= 0, b <= 15]
            elif d[0] == 'bool':
                self.bv[n] = z3.Bool('in:' + n)
            elif d[0] == 'bits':
                self.bv[n] = BitVec('in:' + n, d[1])


def build(st, ctx, env, a):
    """create (a new reference to) the object for argument expression a"""
    k = a[0]
    if k == 'v':
        o = env[a[1]]
        incref(st, o)
        return o
    if k == 'int':
        return new_long(st, a[1])
    if k == 'none':
        o = T(st, '_Py_NoneStruct')
        return o
    if k == 'bool':
        return T(st, '_Py_TrueStruct' if a[1] else '_Py_FalseStruct')
    if k == 'str':
        return new_str(st, tuple(a[1].encode()))
    if k == 'bytes':
        return new_bytes(st, tuple(ctx.bv[x[1]] if isinstance(x, (tuple, list)) else x for x in a[1]))
    if k == 'ptr':
        return new_long(st, st.x['memaddr'][a[1]] + a[2])
    if k == 'fnp':
        return new_long(st, st.x['memaddr'][a[1]])
    if k == 'addr':
        return new_long(st, env[a[1]])
    if k in ('fbits', 'dbl'):
        return new_float(st, ctx.bv[a[1]])
    if k == 'chars':
        return cpy.new_text(st, [x if isinstance(x, int) else ctx.bv[x] for x in a[1]])
    if k == 'float':
        import struct
        return new_float(st, struct.unpack('<Q', struct.pack('<d', a[1]))[0])
    if k in ('list', 'tuple'):
        items = [build(st, ctx, env, x) for x in a[1]]
        return (new_list_raw if k == 'list' else new_tuple_raw)(st, items)
    if k in ('iterable', 'seq'):
        items = tuple(build(st, ctx, env, x) for x in a[1])
        o = new_obj(st, 'UserIterable_Type' if k == 'iterable' else 'UserSeq_Type', 32, 'user ' + k,
                    inf=(k, items, dict(a[2])))
        return o
    if k == 'slice':
        return new_slice(st, *[build(st, ctx, env, x) for x in a[1:4]])
    if k == 'index':
        return new_obj(st, 'UserIndex_Type', 32, 'index object', inf=('index', spec_val(ctx, env, a[1])[1]))
    if k == 'fn':
        return new_obj(st, 'UserCallable_Type', 32, 'callable', inf=('callable', a[1]))
    if k == 'uobj':
        return new_obj(st, 'UserObj_Type', 32, 'user object ' + a[1],
                       inf=('obj', a[1], ctx.ranks.get(a[1]), False, False))
    raise Unsupported('value ' + k)


def spec_val(ctx, senv, a):
    k = a[0]
    if k == 'v':
        return senv[a[1]]
    if k in ('list', 'tuple'):
        return (k, tuple(spec_val(ctx, senv, x) for x in a[1]))
    if k in ('iterable', 'seq'):
        return (k, tuple(spec_val(ctx, senv, x) for x in a[1]), a[2])
    if k == 'slice':
        return ('slice',) + tuple(spec_val(ctx, senv, x) for x in a[1:4])
    if k == 'index':
        return ('index', spec_val(ctx, senv, a[1])[1])
    if k == 'str':
        return ('str', a[1])
    if k == 'uobj':
        return ('obj', a[1])
    if k == 'bytes':
        return ('bytes', tuple(ctx.bv[x[1]] if isinstance(x, (tuple, list)) else x for x in a[1]))
    if k == 'ptr':
        return ('ptr', senv['mem:' + a[1]][1], a[2])
    if k == 'dbl':
        return ('dbl', ctx.bv[a[1]])
    if k == 'chars':
        return ('chars', tuple(x if isinstance(x, int) else ctx.bv[x] for x in a[1]))
    if k == 'fnp':
        return senv['mem:' + a[1]]
    if k == 'addr':
        return ('addr', senv[a[1]])
    return tuple(a)


def tuple_args(st, objs):
    return new_tuple_raw(st, objs)


# ------------------------------------------------------------------ method lookup
def find_method(st, ty, name):
    """-> (function address, flags) or None"""
    while ty:
        ms = st.load(ty + TP['tp_methods'], 8)
        if ms:
            i = 0
            while True:
                p = st.load(ms + 32 * i, 8)
                if p == 0:
                    break
                if st.read_cstr(p).decode() == name:
                    return st.load(ms + 32 * i + 8, 8), st.load(ms + 32 * i + 16, 4)
                i += 1
        ty = st.load(ty + TP['tp_base'], 8)
    return None


def lookup_slot(st, ty, name):
    while ty:
        v = st.load(ty + TP[name], 8)
        if v:
            return v
        ty = st.load(ty + TP['tp_base'], 8)
    return 0


def guest_fn(name):
    def f(st, *a):
        st.x['fncalls'] = dict(st.x.get('fncalls', {}))
        st.x['fncalls'][name] = st.x['fncalls'].get(name, 0) + 1
        return st.x['fnret'][name]
    f.wide = True
    f.nofork = True
    return f


class Driver:
    def __init__(self, eng, scen):
        self.eng = eng
        self.scen = scen
        self.ctx = Ctx(eng, scen)
        self.steps = scen['steps']
        self.types = eng.guest_types

    def initial(self):
        st = self.eng.base_state.fork()
        for c in self.ctx.constraints:
            st.add(c)
        st.x['regions0'] = st.next_region
        st.x['faults_on'] = False
        st.x['faults'] = self.scen.get('faults', 0)
        if self.scen.get('fault_only'):
            st.x['fault_only'] = tuple(self.scen['fault_only'])
        if self.scen.get('limit'):
            st.x['limit'] = self.scen['limit']
        st.x['big_ok'] = self.scen.get('big_ok', True)
        if self.scen.get('events'):
            st.x['events'] = self.scen['events']
        if self.scen.get('release'):
            st.x['release'] = self.scen['release']
        env, senv = {}, {}
        for n, d in self.scen['inputs'].items():
            if d[0] == 'int':
                env[n] = new_long(st, self.ctx.bv[n], 'input int ' + n)
                senv[n] = ('int', self.ctx.bv[n])
            elif d[0] == 'obj':
                env[n] = build(st, self.ctx, env, ('uobj', n))
                senv[n] = ('obj', n)
        st.push_host(self.step, {'i': 0, 'ph': 0, 'env': env, 'senv': senv, 'heap': {}, 'nid': 0, 'addr': {},
                                 'tmp': [], 'log': []})
        return st

    # -------------------------------------------------------------- step function
    def step(self, st, hf, ret):
        v = hf.vars
        ph = v['ph']
        steps = v.get('steps') or self.steps
        if ph == 0:
            if v['i'] >= len(steps):
                if v.get('nested'):
                    return self.end_nested(st, hf)
                v['ph'] = 10
                return
            s = steps[v['i']]
            st.x['cur_step'] = v['i']
            return self.begin(st, hf, s)
        if ph == 1:
            return self.finish(st, hf, steps[v['i']], ret)
        if ph == 2:  # after init
            return self.after_init(st, hf, steps[v['i']], ret)
        if ph == 20:
            return self.observe(st, hf, ret)
        if ph == 5:  # temps released
            v['ph'] = 0
            return
        if ph == 6:
            return self.next_step(st, hf)
        if ph == 7:
            if not v['boot']:
                return self.next_step(st, hf)
            f, v['boot'] = v['boot'][0], v['boot'][1:]
            return st.call(self.eng.mod.funcs[f], ())
        if ph == 8:
            return self.ref_done(st, hf)
        if ph == 10:
            return self.teardown(st, hf)
        if ph == 11:
            return self.leaks(st, hf)
        raise Unsupported('phase')

    def push_nested(self, st, steps):
        """run steps from inside a callback; their outcomes are not compared, only what they leave behind matters"""
        root = st.frames[0].vars
        st.push_host(self.step, {'i': 0, 'ph': 0, 'env': dict(root['env']), 'senv': dict(root['senv']),
                                 'heap': dict(root['heap']), 'nid': root['nid'], 'addr': dict(root['addr']),
                                 'tmp': [], 'log': [], 'steps': list(steps), 'nested': True})

    def end_nested(self, st, hf):
        root = st.frames[0]
        if root.owner is not st.uid:
            root = root.clone(st.uid)
            st.frames[0] = root
        for k in ('env', 'senv', 'heap', 'nid', 'addr'):
            root.vars[k] = hf.vars[k]
        st.eng.host_return(st, 0)

    def is_free(self, v, s):
        """the step works on a list whose contents are unspecified by now"""
        for n in names_in(s):
            sp = v['senv'].get(n)
            if sp and sp[0] == 'ref' and v['heap'].get(sp[1], (0,))[0] in ('?', 'P'):
                return True
        return False

    def forget(self, v, n, how='?'):
        sp = v['senv'].get(n)
        if sp and sp[0] == 'ref' and v['heap'][sp[1]][0] in ('L', 'I', 'P'):
            v['heap'][sp[1]] = (how,) + tuple(v['heap'][sp[1]][1:])

    def free_finish(self, st, hf, s, ret, failed, rk):
        v = hf.vars
        if mutates(s):
            self.forget(v, s.get('obj'))
            if v.get('nested'):
                st.x['reent'] = st.x.get('reent', 0) + 1
        if rk == 'obj' and not failed:
            i = info(st, ret)
            ob = st.obj(ret)
            if i is None or not ob.alive:
                raise Bug('use-after-free', '%s returned a dead object' % self.opname(s))
            if s.get('dst'):
                old = v['env'].get(s['dst'])
                if old is not None:
                    v['tmp'].append(old)
                v['env'][s['dst']] = ret
                v['nid'] += 1
                v['heap'][v['nid']] = ('?', s.get('type', ''), (), 0)
                v['senv'][s['dst']] = ('ref', v['nid'])
            else:
                v['tmp'].append(ret)
        return self.next_step(st, hf)

    def next_step(self, st, hf):
        v = hf.vars
        v['i'] += 1
        tmp = v['tmp']
        v['tmp'] = []
        for o in tmp:
            decref(st, o)
        v['ph'] = 0
        if st.x.get('dq'):
            st.push_host(cpy._queue_step, {'ret': 0})
            v['ph'] = 5

    def begin(self, st, hf, s):
        v = hf.vars
        op = s['op']
        env = v['env']
        ctx = self.ctx
        if op == 'faults':
            st.x['faults_on'] = bool(s['on'])
            return self.next_step(st, hf)
        if op == 'let':
            env[s['dst']] = build(st, ctx, env, s['val']) if s['val'][0] != 'index' else build(st, ctx, v['senv'], s['val'])
            if s['val'][0] in ('list',) and s.get('shared'):
                v['nid'] += 1
                v['heap'][v['nid']] = ('L', 'list', spec_val(ctx, v['senv'], s['val'])[1], 0)
                v['senv'][s['dst']] = ('ref', v['nid'])
                v['addr'][v['nid']] = env[s['dst']]
            else:
                v['senv'][s['dst']] = spec_val(ctx, v['senv'], s['val'])
            return self.next_step(st, hf)
        if op == 'assume':
            e = s['cond'](self.ctx)
            st.assume(e)
            return self.next_step(st, hf)
        if op == 'del':
            o = env.pop(s['obj'])
            v['senv'].pop(s['obj'])
            v['tmp'].append(o)
            return self.next_step(st, hf)
        if op in ('vget', 'vset', 'vcheck', 'vrel'):
            return self.view_op(st, hf, s)
        if op in ('mem', 'func', 'mcheck', 'fcheck', 'setrc', 'unsetrc', 'rcmark', 'rccheck', 'cpu', 'ref', 'surface', 'stdin', 'outcheck'):
            return self.mem_op(st, hf, s)
        if s.get('needmem'):
            m = v['senv'].get('mem:' + s['needmem'])
            if m is None or not v['heap'][m[1]][2]:
                return self.next_step(st, hf)
        if op == 'obs':
            o = env.get(s['obj'])
            if o is None:
                return self.next_step(st, hf)
            v['ph'] = 20
            incref(st, o)
            v['tmp'].append(o)
            v['ob'] = {'o': o, 'sp': v['senv'][s['obj']], 'n': None, 'i': -1, 'name': s['obj']}
            return
        for n in s.get('needs', ()):
            if n not in env:
                return self.next_step(st, hf)
        for n in ('obj',):
            if n in s and s[n] not in env:
                return self.next_step(st, hf)
        self.call_op(st, hf, s)

    # -------------------------------------------------------------- raw memory
    def bval(self, x, st=None):
        if not isinstance(x, (tuple, list)):
            return x
        if x[0] == 'addr':
            return st.x['memaddr'][x[1]] >> 8 * x[2] & 255
        e = self.ctx.bv[x[1]]
        return z3.Extract(8 * x[2] + 7, 8 * x[2], e) if len(x) > 2 else e

    def ref_done(self, st, hf):
        """what the reference function left is what the operation has to leave"""
        v = hf.vars
        s, before = v['refop']
        for m in s['mems']:
            a, h = st.x['memaddr'][m], v['heap'][v['senv']['mem:' + m][1]]
            bs = [st.load(a + i, 1) for i in range(len(h[1]))]
            if s.get('undef') and s['undef'][0] == m:
                bs[s['undef'][1]:] = [None] * (len(bs) - s['undef'][1])
            v['heap'] = dict(v['heap'])
            v['heap'][v['senv']['mem:' + m][1]] = ('M', tuple(bs), True)
            for i, b in enumerate(before[m]):
                st.store(a + i, 1, b)
        return self.next_step(st, hf)

    def surface(self, st, s):
        """the documented class is there, ready, and has the documented operations"""
        from .scen2 import SLOTS
        c = s['type']
        ty = dict(x for x in st.x.get('modobj', ()) if kind(st, x[1]) != 'module').get(c)
        if st.x.get('err'):
            raise Violation('mismatch', 'importing should not leave an exception')
        if ty is None or all(n != c for n, o in st.x['modobj'] if kind(st, o) == 'module'):
            raise Violation('mismatch', 'the class %s should be provided' % c)
        if ty not in st.x.get('ready', ()):
            raise Violation('mismatch', 'the instances of %s should have attributes, its type is not ready' % c)
        have, t = {}, ty
        while t:
            p = st.load(t + TP['tp_methods'], 8)
            while p and st.load(p, 8):
                have.setdefault(st.read_cstr(st.load(p, 8)).decode(), st.load(p + 8, 8))
                p += 32
            t = st.load(t + TP['tp_base'], 8)
        for n in s['names']:
            if any(lookup_slot(st, ty, x) if x in TP else self.sub_slot(st, ty, x) for x in SLOTS.get(n, ())):
                continue
            if not have.get(n):
                raise Violation('mismatch', '%s should have the operation %s' % (c, n))

    def sub_slot(self, st, ty, x):
        t = lookup_slot(st, ty, 'tp_as_sequence' if x in SQ else 'tp_as_mapping')
        return st.load(t + (SQ if x in SQ else MP)[x], 8) if t else 0

    def same_bytes(self, st, got, want, what):
        if len(got) != len(want):
            raise Violation('mismatch', '%s has %d bytes, expected %d' % (what, len(got), len(want)))
        for i, (x, y) in enumerate(zip(got, want)):
            y = y if isinstance(y, int) else z3.Extract(7, 0, y)
            self.require(st, tobv(x, 8) == tobv(y, 8), 'byte %d of %s' % (i, what))

    def mem_op(self, st, hf, s):
        v = hf.vars
        op = s['op']
        if op == 'cpu':
            # the module is loaded (again) on a machine with any processor
            if 'boot' not in v:
                b = self.ctx.bv
                st.x['cpusym'] = (b['max'], b['ecx'], b['ebx'], b['xcr'])
                st.x['ready'], st.x['modobj'] = frozenset(), ()
                v['boot'] = list(self.eng.mod.ctors) + ['PyInit___pyfastutil']
                v['ph'] = 7
            return
        if op == 'stdin':
            bs = tuple(x if isinstance(x, int) else norm(z3.Extract(7, 0, self.ctx.bv[x])) for x in s['bytes'])
            st.x['stdin'], st.x['stdin_flag'] = (bs, 0, s['end']), None
            v['nid'] += 2
            v['heap'] = dict(v['heap'])
            v['heap'][v['nid'] - 1] = ('O', ())
            v['heap'][v['nid']] = ('I', tuple(x if isinstance(x, int) else self.ctx.bv[x] for x in s['bytes']), s['end'])
            v['senv']['mem:stdout'] = ('io', v['nid'] - 1)
            v['senv']['mem:stdin'] = ('io', v['nid'])
            return self.next_step(st, hf)
        if op == 'outcheck':
            got = st.x.get('stdout', ())[:None if s.get('all') else st.x.get('flushed', 0)]
            self.same_bytes(st, got, v['heap'][v['senv']['mem:stdout'][1]][1], 'the output')
            left = st.x['stdin'][0][st.x['stdin'][1]:]
            self.same_bytes(st, left, v['heap'][v['senv']['mem:stdin'][1]][1], 'the unread input')
            return self.next_step(st, hf)
        if op == 'surface':
            self.surface(st, s)
            return self.next_step(st, hf)
        if op == 'ref':
            v['refop'] = (s, {m: [st.load(st.x['memaddr'][m] + i, 1) for i in range(len(v['heap'][v['senv']['mem:' + m][1]][1]))]
                              for m in s['mems']})
            args = []
            for a in s['args']:
                if a[0] == 'ptr':
                    args.append(st.x['memaddr'][a[1]] + a[2])
                else:
                    e = self.ctx.bv[a[1]]
                    args.append(z3.Extract(63, 0, e) if e.size() > 64 else e)
            v['ph'] = 8
            return st.call(self.eng.mod.funcs[s['fn']], tuple(args))
        if op == 'mem':
            bs = [self.bval(x, st) for x in s['bytes']]
            a = st.new_region(len(bs), 'vec', None, 'memory block ' + s['name'], 64)
            for i, b in enumerate(bs):
                st.store(a + i, 1, b)
            v['nid'] += 1
            v['heap'] = dict(v['heap'])
            v['heap'][v['nid']] = ('M', tuple(bs), True)
            v['senv']['mem:' + s['name']] = ('mem', v['nid'])
            st.x['memaddr'] = dict(st.x.get('memaddr', {}), **{s['name']: a})
        elif op == 'func':
            fa = self.eng.native_addr('__vt_fn_' + s['name'], guest_fn(s['name']))
            r = s['ret']
            if r[0] == 'ptr':
                rv = ('ptr', v['senv']['mem:' + r[1]][1], r[2])
                raw = st.x['memaddr'][r[1]] + r[2]
            else:
                raw = self.bval(r[1])
                rv = ('int', raw)
                if s.get('bits') == 32:
                    hi = st.fresh('junk', 32)
                    raw = norm(z3.Concat(hi, z3.Extract(31, 0, tobv(raw, 64))))
            v['nid'] += 1
            v['heap'] = dict(v['heap'])
            v['heap'][v['nid']] = ('F', rv, 0)
            v['senv']['mem:' + s['name']] = ('fn', v['nid'])
            st.x['memaddr'] = dict(st.x.get('memaddr', {}), **{s['name']: fa})
            st.x['fnret'] = dict(st.x.get('fnret', {}), **{s['name']: raw})
        elif op in ('rcmark', 'rccheck'):
            o = v['env'].get(s['obj'])
            if o is not None:
                x = st.load(o, 8)
                if op == 'rcmark':
                    v['marks'] = dict(v.get('marks', {}), **{s['obj']: x})
                else:
                    w = v['marks'][s['obj']]
                    c = x == w + s['delta'] if isinstance(x, int) and isinstance(w, int) else tobv(x, 64) == tobv(w, 64) + s['delta']
                    self.require(st, c, 'the reference count of %s should change by %d' % (s['obj'], s['delta']))
        elif op == 'mcheck':
            a = st.x.get('memaddr', {}).get(s['mem'])
            h = v['heap'][v['senv']['mem:' + s['mem']][1]] if a is not None else None
            if h is not None and h[2]:
                cs, where = [], None
                for i, e in enumerate(h[1]):
                    if e is None:
                        continue
                    x = st.load(a + i, 1)
                    if isinstance(x, int) and isinstance(e, int):
                        if x != e:
                            raise Violation('mismatch', 'byte %d of %s is %d, expected %d' % (i, s['mem'], x, e))
                    elif isinstance(x, int) or isinstance(e, int) or not x.eq(e):
                        cs.append(tobv(x, 8) == tobv(e, 8))
                if cs:
                    self.require(st, z3.And(*cs), 'the bytes of %s are wrong' % s['mem'])
        elif op == 'fcheck':
            n = st.x.get('fncalls', {}).get(s['fn'], 0)
            h = v['heap'][v['senv']['mem:' + s['fn']][1]]
            if n != h[2]:
                raise Violation('mismatch', 'the function was called %d times, expected %d' % (n, h[2]))
        elif op == 'setrc':
            o = v['env'][s['obj']]
            r = st.load(o, 8)
            c = norm(z3.Extract(63, 0, self.bval(s['val'])))
            st.x['symrc'] = (o, r, c)
            st.store(o, 8, norm(BitVecVal(r, 64) + c))
        else:
            o, r, c = st.x['symrc']
            st.x['symrc'] = None
            x = st.load(o, 8)
            d = norm(tobv(x, 64) - c)
            if not isinstance(d, int):
                m = st.get_model()
                k = m.eval(d, model_completion=True).as_long()
                self.require(st, d == k, 'the reference count moved by a varying amount')
                d = k
            st.store(o, 8, d)
        return self.next_step(st, hf)

    def arg(self, st, hf, a):
        if a[0] == 'index':
            o = build(st, self.ctx, hf.vars['senv'], a)
        else:
            o = build(st, self.ctx, hf.vars['env'], a)
        hf.vars['tmp'].append(o)
        return o

    def call_op(self, st, hf, s):
        """push the guest call for step s; hf.vars['rk'] = return kind"""
        v = hf.vars
        env = v['env']
        op = s['op']
        v['ph'] = 1
        v['rk'] = 'obj'
        if op == 'new':
            ty = self.types[('Sub' if s.get('sub') else '') + s['type']]
            args = tuple_args(st, [build(st, self.ctx, env, a) if a[0] != 'index' else build(st, self.ctx, v['senv'], a)
                                   for a in s.get('args', ())])
            v['tmp'].append(args)
            kw = 0
            if s.get('kw'):
                kw = cpy.new_dict(st, [(k, build(st, self.ctx, env, a)) for k, a in s['kw'].items()])
                v['tmp'].append(kw)
            v['args'] = (ty, args, kw)
            v['ph'] = 2
            v['newobj'] = 0
            f = lookup_slot(st, ty, 'tp_new')
            return st.call(f, (ty, args, kw))
        if op == 'call' or op == 'callstatic':
            if op == 'call':
                o = env[s['obj']]
                incref(st, o)
                v['tmp'].append(o)
                ty = st.load(o + 8, 8)
            else:
                o = ty = self.types[s['type']]
            m = find_method(st, ty, s['name'])
            if m is None:
                raise Unsupported('no method ' + s['name'])
            f, fl = m
            args = [self.arg(st, hf, a) for a in s.get('args', ())]
            if s['name'] == 'refcnt' and len(args) == 1:
                v['rc'] = st.load(args[0], 8)
            kw = s.get('kw') or {}
            selfo = 0 if fl & 0x20 else o
            call = fl & 0x8f
            if call == 8:
                if len(args) != 1:
                    raise Unsupported('arity')
                return st.call(f, (selfo, args[0]))
            if call == 4:
                return st.call(f, (selfo, 0))
            if call in (1, 3):
                for a in args:
                    incref(st, a)
                t = tuple_args(st, args)
                v['tmp'].append(t)
                if call == 3:
                    d = 0
                    if kw:
                        d = cpy.new_dict(st, [(k, build(st, self.ctx, env, a)) for k, a in kw.items()])
                        v['tmp'].append(d)
                    return st.call(f, (selfo, t, d))
                return st.call(f, (selfo, t))
            if call in (0x80, 0x82):
                n = len(args)
                p = st.new_region(8 * max(n + 1, 1), 'vec', None, 'argument vector', 16)
                for i, a in enumerate(args):
                    st.store(p + 8 * i, 8, a)
                if call == 0x82:
                    if kw:
                        raise Unsupported('fastcall keywords')
                    return st.call(f, (selfo, p, n, 0))
                return st.call(f, (selfo, p, n))
            raise Unsupported('method flags %#x' % fl)
        o = env[s['obj']]
        incref(st, o)
        v['tmp'].append(o)
        ty = st.load(o + 8, 8)

        def sl(name):
            f = lookup_slot(st, ty, name)
            return f

        def sq(name):
            t = sl('tp_as_sequence')
            return st.load(t + SQ[name], 8) if t else 0

        def mp(name):
            t = sl('tp_as_mapping')
            return st.load(t + MP[name], 8) if t else 0
        if op == 'len':
            v['rk'] = 'ssize'
            f = sq('sq_length') or mp('mp_length')
            return st.call(f, (o,))
        if op == 'getitem':
            k = self.arg(st, hf, s['key'])
            f = mp('mp_subscript')
            if f:
                return st.call(f, (o, k))
            raise Unsupported('getitem through sq_item')
        if op in ('setitem', 'delitem'):
            k = self.arg(st, hf, s['key'])
            x = self.arg(st, hf, s['val']) if op == 'setitem' else 0
            f = mp('mp_ass_subscript')
            v['rk'] = 'int'
            if f:
                return st.call(f, (o, k, x))
            raise Unsupported('setitem through sq_ass_item')
        if op == 'contains':
            v['rk'] = 'truth'
            x = self.arg(st, hf, s['val'])
            f = sq('sq_contains')
            return st.call(f, (o, x))
        if op in ('add', 'iadd'):
            x = self.arg(st, hf, s['val'])
            f = (sq('sq_inplace_concat') if op == 'iadd' else 0) or sq('sq_concat')
            return st.call(f, (o, x))
        if op in ('mul', 'rmul', 'imul'):
            x = self.arg(st, hf, s['val'])
            # the interpreter converts the count first (PyNumber_AsSsize_t with OverflowError)
            kk = kind(st, x)
            if kk == 'index':
                val = info(st, x)[1]
            elif kk == 'long':
                val = info(st, x)[1]
            else:
                set_err(st, 'TypeError')
                return st.ret_to_top(0)
            if isinstance(val, int):
                if not -(1 << 63) <= val < (1 << 63):
                    set_err(st, 'OverflowError')
                    return st.ret_to_top(0)
                n = val & ((1 << 64) - 1)
            else:
                if not st.choose(z3.And(val >= -(1 << 63), val < (1 << 63))):
                    set_err(st, 'OverflowError')
                    return st.ret_to_top(0)
                n = norm(z3.Extract(63, 0, val))
            f = (sq('sq_inplace_repeat') if op == 'imul' else 0) or sq('sq_repeat')
            return st.call(f, (o, n))
        if op == 'cmp':
            x = self.arg(st, hf, s['val'])
            f = sl('tp_richcompare')
            if kind(st, x) == 'guest' and self.below(st, st.load(x + 8, 8), ty):  # the subclass is asked first
                return st.call(f, (x, o, OPCODE[SWAP[s['cmp']]]))
            return st.call(f, (o, x, OPCODE[s['cmp']]))
        if op == 'iter':
            return st.call(sl('tp_iter'), (o,))
        if op == 'reversed':
            f, fl = find_method(st, ty, '__reversed__')
            return st.call(f, (o, 0))
        if op == 'next':
            return st.call(sl('tp_iternext'), (o,))
        if op in ('repr', 'str'):
            f = sl('tp_str') if op == 'str' and 'tp_str' in TP else 0
            return st.call(f or sl('tp_repr'), (o,))
        if op == 'view':
            t = sl('tp_as_buffer')
            f = st.load(t, 8) if t else 0
            if not f:
                raise Unsupported('no buffer protocol')
            p = st.new_region(80, 'vec', None, 'Py_buffer', 16)
            st.store(p + 8, 8, 0)
            fl = spec_val(self.ctx, v['senv'], s['flags'])[1]
            v['vw'] = (p, fl)
            v['rk'] = 'int'
            return st.call(f, (o, p, fl if isinstance(fl, int) else norm(z3.Extract(31, 0, fl))))
        if op == 'tolist':  # list(o): iterate to the end
            return st.call(self.eng.natives['PySequence_List'], (o,)) if False else self.push_native(st, 'PySequence_List', (o,))
        if op == 'reinit':
            args = tuple_args(st, [build(st, self.ctx, env, a) for a in s.get('args', ())])
            v['tmp'].append(args)
            v['rk'] = 'int'
            return st.call(sl('tp_init'), (o, args, 0))
        raise Unsupported('op ' + op)

    def push_native(self, st, name, args):
        r = self.eng.natives[name](st, *args)
        if r is not PUSHED:
            st.ret_to_top(r)

    def after_init(self, st, hf, s, ret):
        v = hf.vars
        ty, args, kw = v['args']
        if v['newobj'] == 0:
            if ret == 0:
                return self.finish(st, hf, s, 0)
            v['newobj'] = ret
            f = lookup_slot(st, ty, 'tp_init')
            if not f or s.get('sub') == 'raw':  # an __init__ that leaves the list alone
                return self.finish(st, hf, s, ret)
            return st.call(f, (ret, args, kw))
        o = v['newobj']
        r = ret
        if not isinstance(r, int):
            r = st.concretize(r, 4, 'init result')
        if r & 0xffffffff == 0:
            return self.finish(st, hf, s, o)
        if st.x['err'] is None:
            raise Bug('error-protocol', '__init__ failed without setting an exception')
        v['tmp'].append(o)
        return self.finish(st, hf, s, 0)

    def below(self, st, a, b):
        while a:
            a = st.load(a + TP['tp_base'], 8)
            if a == b:
                return True
        return False

    # -------------------------------------------------------------- outcome
    def finish(self, st, hf, s, ret):
        v = hf.vars
        rk = v['rk']
        op = s['op']
        if not st.x['gil']:
            raise Bug('gil', '%s returned to the interpreter without holding the GIL' % self.opname(s))
        err = st.x['err']
        if not isinstance(ret, int) and rk in ('obj',):
            ret = st.concretize(ret, 8, 'result')
        if rk in ('int', 'truth'):
            if not isinstance(ret, int):
                ret = st.concretize(norm(z3.Extract(31, 0, tobv(ret, 64)) if tobv(ret, 64).size() > 32 else ret), 8, 'int result')
            ret = sext_int(ret & 0xffffffff, 32)
            failed = ret < 0 if rk == 'truth' else ret != 0
        elif rk == 'ssize':
            if not isinstance(ret, int):
                ret = st.concretize(ret, 64, 'size result')
            ret = sext_int(ret, 64)
            failed = ret < 0
        else:
            failed = ret == 0
        if op == 'next' and failed and err is None:
            err = ('StopIteration', '')
        if failed and err is None:
            raise Bug('error-protocol', '%s failed without setting an exception' % self.opname(s))
        if not failed and err is not None:
            raise Bug('error-protocol', '%s succeeded with an exception (%s) set' % (self.opname(s), err[0]))
        st.x['err'] = None
        if op == 'view':
            return self.view_made(st, hf, s, failed)
        if failed and err[0] == 'BufferError' and self.exported(v, s.get('obj')):
            return self.next_step(st, hf)
        # user code raised or changed the list while the operation ran
        raised, reent = st.x.get('raised', 0), st.x.get('reent', 0)
        r0, n0 = v.get('nraised', 0), v.get('nreent', 0)
        v['nraised'], v['nreent'] = raised, reent
        if v.get('nested') or reent > n0 or self.is_free(v, s):
            if raised > r0 and not v.get('nested') and not failed:
                raise Violation('mismatch', '%s swallowed an exception raised by user code' % self.opname(s))
            return self.free_finish(st, hf, s, ret, failed, rk)
        if raised > r0:
            if not failed:
                raise Violation('mismatch', '%s swallowed an exception raised by user code' % self.opname(s))
            if err[0] != 'UserError':
                raise Violation('mismatch', '%s replaced an exception raised by user code with %s' % (self.opname(s), err[0]))
            how = on_raise(s)
            if how:
                self.forget(v, s.get('obj'), how)
            return self.next_step(st, hf)
        # reference model
        out = self.spec_step(st, hf, s)
        if out[0] == 'undef':
            st.x['undef'] = True
            raise PathEnd()
        hits = st.x.get('fault_hit', ())
        if failed:
            got = ('err', err[0])
            if len(hits) > v.get('nhit', 0):
                v['nhit'] = len(hits)
                # an injected failure: any of these is a legal report; the receiver is checked by later steps
                if err[0] not in ('MemoryError', 'RuntimeError', 'TypeError', 'OverflowError'):
                    raise Bug('error-protocol', '%s reports %s for an allocation failure' % (self.opname(s), err[0]))
                self.after_fault(st, hf, s)
                return self.next_step(st, hf)
            ok = False
            if out[0] == 'err':
                ok = err[0] in out[1] or '*' in out[1]
            elif out[0] == 'val' and out[1][0] == 'anyof':
                ok = any(x[0] == 'err' and err[0] in x[1:] for x in out[1][1:])
            if not ok:
                raise Violation('mismatch', '%s raised %s, expected %s' % (self.opname(s), err[0], self.show(st, out)))
            self.commit(st, hf, out)
            return self.next_step(st, hf)
        v['nhit'] = len(hits)
        if rk == 'ssize':
            val = ('int', ret)
        elif rk == 'truth':
            val = ('bool', bool(ret))
        elif rk == 'int':
            val = NONE
        else:
            val = None
        if out[0] == 'err':
            raise Violation('mismatch', '%s succeeded, expected %s' % (self.opname(s), '/'.join(out[1])))
        exp = out[1]
        self.commit(st, hf, out)
        if val is None:
            self.match(st, hf, s, ret, exp, self.opname(s))
            dst = s.get('dst')
            if dst:
                old = v['env'].get(dst)
                if old is not None:
                    v['tmp'].append(old)
                v['env'][dst] = ret
                v['senv'][dst] = exp
            else:
                v['tmp'].append(ret)
        else:
            c = self.spec(st, hf).same(val, exp) if exp[0] != 'anyof' else any(
                x[0] == val[0] and self.spec(st, hf).same(val, x) for x in exp[1:])
            self.require(st, c, '%s returned %s, expected %s' % (self.opname(s), val, self.show(st, out)))
        return self.next_step(st, hf)

    # -------------------------------------------------------------- buffer views
    def exported(self, v, name):
        sp = v['senv'].get(name)
        return sp is not None and sp[0] == 'ref' and any(w[1] == sp[1] for w in v.get('views', {}).values())

    def view_made(self, st, hf, s, failed):
        v = hf.vars
        p, fl = v['vw']
        if failed:
            raise Violation('mismatch', 'the buffer of a list could not be taken')
        hid = v['senv'][s['obj']][1]
        if v['heap'][hid][0] != 'L':
            raise Unsupported('view of a list with unspecified contents')
        ty, items = v['heap'][hid][1:3]
        o = v['env'][s['obj']]
        isz = 8 if ty == 'BigIntArrayList' else 4

        def field(off, n, want, what):
            x = st.load(p + off, n)
            self.require(st, x == want if isinstance(x, int) else x == BitVecVal(want & ((1 << 8 * n) - 1), 8 * n),
                         'view: %s is %s, expected %s' % (what, x, want))
        field(8, 8, o, 'obj')
        field(16, 8, isz * len(items), 'len')
        field(24, 8, isz, 'itemsize')
        field(32, 4, 0, 'readonly')
        field(36, 4, 1, 'ndim')
        field(64, 8, 0, 'suboffsets')
        has = lambda m: fl & m == m if isinstance(fl, int) else st.choose(fl & m == m)  # noqa: E731
        fmt = st.concretize(st.load(p + 40, 8))
        if has(4):
            if fmt == 0 or st.read_cstr(fmt) not in ((b'i',) if isz == 4 else (b'q', b'l')):
                raise Violation('mismatch', 'view: format does not match the element type')
        elif fmt != 0:
            raise Violation('mismatch', 'view: a format was not requested')
        for off, m, want, what in ((48, 8, len(items), 'shape'), (56, 0x18, isz, 'strides')):
            q = st.concretize(st.load(p + off, 8))
            if has(m):
                if q == 0:
                    raise Violation('mismatch', 'view: %s is missing' % what)
                x = st.load(q, 8)
                self.require(st, x == want if isinstance(x, int) else x == BitVecVal(want, 64),
                             'view: %s is %s, expected %s' % (what, x, want))
            elif q != 0:
                raise Violation('mismatch', 'view: %s was not requested' % what)
        v['views'] = dict(v.get('views', {}))
        v['views'][s['dst']] = (p, hid, ty, len(items), o)
        return self.next_step(st, hf)

    def view_op(self, st, hf, s):
        v = hf.vars
        w = v.get('views', {}).get(s['view'])
        if w is None:
            return self.next_step(st, hf)
        p, hid, ty, n, o = w
        isz = 8 if ty == 'BigIntArrayList' else 4
        if s['op'] == 'vrel':
            v['views'] = dict(v['views'])
            del v['views'][s['view']]
            t = lookup_slot(st, st.load(o + 8, 8), 'tp_as_buffer')
            f = st.load(t + 8, 8)
            v['tmp'].append(o)
            v['ph'] = 6
            if f:
                return st.call(f, (o, p))
            return
        h = v['heap'].get(hid)
        buf = st.load(p, 8)
        if s['op'] == 'vset':
            x = spec_val(self.ctx, v['senv'], s['val'])[1]
            if s['i'] >= n:
                return self.next_step(st, hf)
            st.store(buf + isz * s['i'], isz, x & ((1 << 8 * isz) - 1) if isinstance(x, int) else norm(z3.Extract(8 * isz - 1, 0, x)))
            if h[0] == 'L':
                items = list(h[2])
                items[s['i']] = ('int', x)
                v['heap'][hid] = ('L', h[1], tuple(items)) + tuple(h[3:])
            return self.next_step(st, hf)
        if h[0] == 'L' and len(h[2]) != n:
            raise Violation('mismatch', 'the view has %d elements, the list has %d' % (n, len(h[2])))
        for i in range(n) if s['op'] == 'vcheck' else (s['i'],):
            x = st.load(buf + isz * i, isz)
            if h[0] != 'L':
                continue
            e = h[2][i][1]
            if isinstance(x, int) and isinstance(e, int):
                c = sext_int(x, 8 * isz) == e
            else:
                c = z3.SignExt(96 - 8 * isz, tobv(x, 8 * isz)) == (e if not isinstance(e, int) else BitVecVal(e, 96))
            self.require(st, c, 'view[%d] differs from the list' % i)
        return self.next_step(st, hf)

    def after_fault(self, st, hf, s):
        """after an injected failure the receiver must still be usable; its expected content follows s['onfault']"""
        v = hf.vars
        pol = s.get('onfault', 'unchanged')
        o = s.get('obj')
        if pol == 'forget' and o in v['env']:
            # content unspecified (partially applied): only memory safety is checked from here on
            sp = v['senv'][o]
            v['heap'][sp[1]] = ('?',) + v['heap'][sp[1]][1:]

    def opname(self, s):
        t = s.get('type') or ''
        n = s.get('name') or s.get('cmp') or ''
        return '%s%s%s' % (s['op'], ' ' + t if t else '', ' ' + n if n else '')

    def show(self, st, out):
        def sv(x):
            if isinstance(x, tuple):
                return tuple(sv(y) for y in x)
            if isinstance(x, z3.ExprRef):
                try:
                    m = st.get_model()
                    r = m.eval(x, model_completion=True)
                    return r.as_signed_long() if z3.is_bv(r) else z3.is_true(r)
                except Exception:
                    return '?'
            return x
        return str(sv(out))[:200]

    def require(self, st, c, msg):
        if c is True:
            return
        if c is False:
            raise Violation('mismatch', msg)
        if not st.must(c):
            r, m = self.eng.solv.check(st.pc, z3.Not(c))
            st.pc.append(z3.Not(c))
            st.model = m
            raise Violation('mismatch', msg + ' (for some input)')
        self.eng.stats['asserts'] = self.eng.stats.get('asserts', 0) + 1

    # -------------------------------------------------------------- reference model
    def spec(self, st, hf):
        v = hf.vars
        return Spec(st.choose, self.ctx.ranks, v['heap'], v['nid'])

    def spec_step(self, st, hf, s):
        """-> ('val', value, heap, nid) | ('err', names, heap, nid) | ('undef',)"""
        v = hf.vars
        sp = Spec(st.choose, self.ctx.ranks, dict(v['heap']), v['nid'])
        sp.two = self.scen.get('two')
        if st.x.get('cpusym'):
            from .memspec import cpu_flags
            sp.cpu = cpu_flags(*st.x['cpusym'])
        senv = v['senv']
        try:
            r = run_spec(sp, lambda a: spec_val(self.ctx, senv, a), senv, s)
            return ('val', r, sp.heap, sp.nid)
        except SpecErr as e:
            return ('err', e.names, sp.heap, sp.nid)
        except Undefined:
            return ('undef',)

    def commit(self, st, hf, out):
        hf.vars['heap'] = out[2]
        hf.vars['nid'] = out[3]

    def match(self, st, hf, s, o, exp, what):
        """the object o must be the value exp"""
        sp = self.spec(st, hf)
        if exp[0] == 'anyof':
            val = self.value_of(st, o)
            for x in exp[1:]:
                if val is not None and x[0] == val[0]:
                    return self.require(st, sp.same(val, x), what + ' value')
            raise Violation('mismatch', what + ' returned an unexpected value')
        if exp[0] == 'ref':
            h = sp.heap[exp[1]]
            a = hf.vars['addr'].get(exp[1])
            if a is not None:
                if a != o:
                    raise Violation('mismatch', what + ' should have returned the same object')
                return
            if h[0] == 'L':
                if h[1] == 'list':
                    if kind(st, o) != 'list':
                        raise Violation('mismatch', what + ' should return a list')
                else:
                    t = ('Sub' if s and s.get('sub') else '') + h[1]
                    if kind(st, o) != 'guest' or st.load(o + 8, 8) != self.types[t]:
                        raise Violation('mismatch', '%s should return a %s' % (what, t))
                if o in hf.vars['addr'].values() and a is None:
                    raise Violation('mismatch', what + ' returned an existing object instead of a new one')
            elif h[0] == 'U':
                if kind(st, o) != 'guest':
                    raise Violation('mismatch', what + ' should return a ' + h[1])
            elif kind(st, o) not in ('guest', 'iter'):
                raise Violation('mismatch', what + ' should return an iterator')
            elif kind(st, o) == 'guest' and st.load(o + 8, 8) not in st.x.get('ready', ()):
                raise Violation('mismatch', what + ' should return an iterator, its type is not ready')
            hf.vars['addr'] = dict(hf.vars['addr'])
            hf.vars['addr'][exp[1]] = o
            return
        if exp[0] in ('list', 'tuple'):
            if kind(st, o) != exp[0]:
                raise Violation('mismatch', '%s should return a %s' % (what, exp[0]))
            items = cpy.list_items(st, o) if exp[0] == 'list' else cpy.tuple_items(st, o)
            if len(items) != len(exp[1]):
                raise Violation('mismatch', '%s returned %d items, expected %d' % (what, len(items), len(exp[1])))
            for i, (x, e) in enumerate(zip(items, exp[1])):
                if x == 0:
                    raise Bug('null-item', '%s returned a list with a NULL item' % what)
                self.match(st, hf, s, x, e, '%s item %d' % (what, i))
            return
        if exp[0] == 'any':
            return
        if exp[0] == 'newmem':
            val = self.value_of(st, o)
            if val is None or val[0] != 'int' or not isinstance(val[1], int):
                raise Violation('mismatch', what + ' should return an address')
            h = hf.vars['heap'][exp[1]]
            ob = st.obj(val[1]) if val[1] else None
            if ob is None or not ob.alive or ob.base != val[1] or ob.kind not in ('malloc', 'aligned'):
                raise Violation('mismatch', what + ' returned %#x, not a new block' % val[1])
            self.require(st, ob.size >= len(h[1]) if isinstance(ob.size, int) else z3.UGE(ob.size, len(h[1])),
                         '%s returned a block of fewer than %d bytes' % (what, len(h[1])))
            if val[1] % exp[2]:
                raise Violation('mismatch', '%s returned an address that is not aligned to %d' % (what, exp[2]))
            if s.get('mdst'):
                hf.vars['senv']['mem:' + s['mdst']] = ('mem', exp[1])
                st.x['memaddr'] = dict(st.x.get('memaddr', {}), **{s['mdst']: val[1]})
            return
        if exp[0] == 'addrof':
            val = self.value_of(st, o)
            want = hf.vars['env'][s['args'][0][1]]
            if val is None or val[0] != 'int':
                raise Violation('mismatch', what + ' should return an address')
            return self.require(st, val[1] == want, '%s returned another address' % what)
        if exp[0] == 'refcnt':
            val = self.value_of(st, o)
            if val is None or val[0] != 'int':
                raise Violation('mismatch', what + ' should return a count')
            want = hf.vars['rc']
            c = val[1] == want if isinstance(want, int) and isinstance(val[1], int) else tobv(val[1], cpy.W) == z3.SignExt(
                cpy.W - 64, tobv(want, 64))
            return self.require(st, c, '%s is not the reference count' % what)
        if exp[0] == 'bytes':
            if kind(st, o) != 'bytes':
                raise Violation('mismatch', what + ' should return bytes')
            n = st.load(o + 16, 8)
            if n != len(exp[1]):
                raise Violation('mismatch', '%s returned %s bytes, expected %d' % (what, n, len(exp[1])))
            for i, e in enumerate(exp[1]):
                x = st.load(o + 32 + i, 1)
                if e is not None and not (not isinstance(x, int) and not isinstance(e, int) and x.eq(e)):
                    self.require(st, x == e if isinstance(x, int) and isinstance(e, int) else tobv(x, 8) == tobv(e, 8),
                                 '%s byte %d' % (what, i))
            return
        if exp[0] in ('str', 'strx') and kind(st, o) == 'str':
            got = info(st, o)[1]
            want = exp[1].encode() if exp[0] == 'str' else exp[1]
            if len(got) != len(want):
                raise Violation('mismatch', '%s returned %d characters, expected %d' % (what, len(got), len(want)))
            for i, (x, y) in enumerate(zip(got, want)):
                if isinstance(x, int) and isinstance(y, int):
                    c = x == y
                elif not isinstance(x, int) and not isinstance(y, int) and x.eq(y):
                    c = True
                else:
                    c = tobv(x, 8) == tobv(y, 8)
                self.require(st, c, '%s character %d' % (what, i))
            return
        if exp[0] == 'dbl':
            if kind(st, o) != 'float':
                raise Violation('mismatch', '%s should be a float' % what)
            return self.require(st, tobv(info(st, o)[1], 64) == tobv(exp[1], 64), '%s is another float' % what)
        if exp[0] == 'chars':
            if kind(st, o) != 'str':
                raise Violation('mismatch', '%s should be a string' % what)
            want = ()
            for x in exp[1]:
                want += tuple(chr(x).encode()) if isinstance(x, int) else (norm(z3.Extract(7, 0, x)),)
            return self.require(st, cpy.text_eq(info(st, o)[1], want), '%s is another string' % what)
        val = self.value_of(st, o)
        if val is None:
            raise Violation('mismatch', '%s returned a %s, expected %s' % (what, kind(st, o), exp[0]))
        self.require(st, sp.same(val, exp), '%s returned %s, expected %s' % (what, self.show(st, val), self.show(st, exp)))

    def value_of(self, st, o):
        i = info(st, o)
        if i is None:
            raise Bug('wild-access', 'result is not an object')
        ob = st.obj(o)
        if not ob.alive:
            raise Bug('use-after-free', 'a freed object is returned')
        if i[0] == 'long':
            if o in (T(st, '_Py_TrueStruct'), T(st, '_Py_FalseStruct')):
                return ('bool', o == T(st, '_Py_TrueStruct'))
            v = i[1]
            if not isinstance(v, int):
                v = norm(v)
                if isinstance(v, int):
                    v = sext_int(v, W)
            return ('int', v)
        if i[0] == 'singleton':
            return NONE if 'None' in i[1] else ('singleton', i[1])
        if i[0] == 'obj':
            return ('obj', i[1])
        if i[0] == 'str':
            if all(isinstance(x, int) for x in i[1]):
                return ('str', bytes(i[1]).decode('utf8', 'replace'))
            return ('chars', tuple(x if isinstance(x, int) else z3.ZeroExt(W - 8, x) for x in i[1]))
        if i[0] == 'tuple':
            return ('tuple', tuple(self.value_of(st, x) for x in cpy.tuple_items(st, o)))
        if i[0] == 'float':
            import struct
            if not isinstance(i[1], int):
                return ('dbl', i[1])
            if isinstance(i[1], int):
                return ('float', struct.unpack('<d', struct.pack('<Q', i[1]))[0])
        return None

    # -------------------------------------------------------------- observation of a guest container
    def observe(self, st, hf, ret):
        """len(o), then o[i] for each i, compared with the reference model"""
        v = hf.vars
        ob = dict(v['ob'])
        v['ob'] = ob
        o, spv = ob['o'], ob['sp']
        sp = self.spec(st, hf)
        h = sp.heap[spv[1]]
        forget = h[0] == '?' or v.get('nested')
        perm = h[0] == 'P'
        if ob.get('bulk'):
            if ret == 0:
                raise Violation('mismatch', '%s.to_list() raised %s' % (ob['name'], (st.x['err'] or ('?',))[0]))
            if st.x['err'] is not None:
                raise Bug('error-protocol', 'to_list succeeded with an exception set')
            if kind(st, ret) != 'list':
                raise Violation('mismatch', '%s.to_list() is not a list' % ob['name'])
            items = cpy.list_items(st, ret)
            if len(items) != ob['n']:
                raise Violation('mismatch', '%s.to_list() has %d items, len is %d' % (ob['name'], len(items), ob['n']))
            if perm:
                self.check_perm(st, hf, tuple(self.value_of(st, x) for x in items), h[2], ob['name'])
            elif not forget:
                for i, x in enumerate(items):
                    if x == 0:
                        raise Bug('null-item', '%s.to_list() has a NULL item' % ob['name'])
                    self.match(st, hf, None, x, h[2][i], '%s[%d]' % (ob['name'], i))
            decref(st, ret)
            return self.next_step(st, hf)
        if ob['n'] is None:
            if ob['i'] == -1:
                ob['i'] = 0
                t = lookup_slot(st, st.load(o + 8, 8), 'tp_as_sequence')
                f = st.load(t + SQ['sq_length'], 8)
                return st.call(f, (o,))
            n = ret if isinstance(ret, int) else st.concretize(ret, 64, 'len')
            ob['n'] = sext_int(n, 64)
            if not forget and ob['n'] != len(h[2]):
                raise Violation('mismatch', 'len(%s) is %d, expected %d' % (ob['name'], ob['n'], len(h[2])))
        else:
            if ret == 0:
                raise Violation('mismatch', '%s[%d] raised %s' % (ob['name'], ob['i'], (st.x['err'] or ('?',))[0]))
            if not isinstance(ret, int):
                ret = st.concretize(ret, 8, 'item')
            if st.x['err'] is not None:
                raise Bug('error-protocol', 'getitem succeeded with an exception set')
            if perm or forget:
                i = info(st, ret)
                if i is None or not st.obj(ret).alive:
                    raise Bug('use-after-free', '%s[%d] is a dead object' % (ob['name'], ob['i']))
                if perm:
                    ob['seen'] = ob.get('seen', ()) + (self.value_of(st, ret),)
            else:
                self.match(st, hf, None, ret, h[2][ob['i']], '%s[%d]' % (ob['name'], ob['i']))
            ob['i'] += 1
            decref(st, ret)
        if ob['n'] > 80 and ob['i'] >= 40:  # the whole of a long list is read at once
            m = find_method(st, st.load(o + 8, 8), 'to_list')
            if m is not None and m[1] & 0x8f == 4:
                ob['bulk'] = True
                return st.call(m[0], (o, 0))
        if ob['i'] >= ob['n'] or ob['i'] >= 80:
            if perm:
                self.check_perm(st, hf, ob.get('seen', ()), h[2], ob['name'])
            return self.next_step(st, hf)
        k = new_long(st, ob['i'])
        v['tmp'].append(k)
        t = lookup_slot(st, st.load(o + 8, 8), 'tp_as_mapping')
        f = st.load(t + MP['mp_subscript'], 8)
        return st.call(f, (o, k))

    def check_perm(self, st, hf, got, exp, name):
        sp = self.spec(st, hf)

        def cnt(x, xs):
            c = [sp.same(y, x) for y in xs]
            k = sum(1 for b in c if b is True)
            e = [z3.If(b, 1, 0) for b in c if b is not True and b is not False]
            return k + z3.Sum(e) if e else k
        for x in exp:
            self.require(st, cnt(x, got) == cnt(x, exp), '%s is not a permutation of its previous elements' % name)

    # -------------------------------------------------------------- end of path
    def teardown(self, st, hf):
        v = hf.vars
        env = v['env']
        st.x['faults_on'] = False
        if v.get('views'):
            n = next(iter(v['views']))
            p, o = v['views'][n][0], v['views'][n][4]
            v['views'] = {k: x for k, x in v['views'].items() if k != n}
            f = st.load(lookup_slot(st, st.load(o + 8, 8), 'tp_as_buffer') + 8, 8)
            decref(st, o)  # the list may die here: release first in a well behaved history
            if st.x.get('dq'):
                raise Unsupported('view outlives its list at the end of the history')
            if f:
                return st.call(f, (o, p))
            return
        if env:
            n = next(iter(env))
            o = env.pop(n)
            decref(st, o)
            if st.x.get('dq'):
                st.push_host(cpy._queue_step, {'ret': 0})
            return
        v['ph'] = 11

    def leaks(self, st, hf):
        if self.scen.get('leaks', True):
            r0 = st.x['regions0']
            for r, o in st.mem.items():
                if r >= r0 and r < 0x10000 and o.alive and o.kind in (
                        'pyobj', 'pymem', 'pymemraw', 'malloc', 'aligned', 'new', 'exc'):
                    i = st.py.get(o.base)
                    raise Bug('leak', '%s is never released' % (o.name or o.kind))
        st.eng.host_return(st, 0)
