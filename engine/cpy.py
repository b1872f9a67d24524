"""Contract models of the CPython 3.12 C API used by (or plausibly used by refactorings of) the extension."""
import z3
from z3 import BitVecVal, BitVec, If, And, Or, Not, Extract, SignExt, ZeroExt
from .core import (tobv, tobool, norm, Bug, Unsupported, PUSHED, REGION, HostFrame, Obj, sext_int, Infeasible)
from .libc import NATIVES as CNATIVES, fault, alloc, do_format

W = 96  # width of the model of python ints
IMM = 0xFFFFFFFF
M64 = (1 << 64) - 1
NULL = 0
MINUS1 = M64

TP = dict(tp_name=24, tp_basicsize=32, tp_itemsize=40, tp_dealloc=48, tp_vectorcall_offset=56, tp_repr=88,
          tp_as_number=96, tp_as_sequence=104, tp_as_mapping=112, tp_hash=120, tp_call=128, tp_str=136,
          tp_getattro=144, tp_as_buffer=160, tp_flags=168, tp_richcompare=200, tp_iter=216, tp_iternext=224,
          tp_methods=232, tp_base=256, tp_init=296, tp_alloc=304, tp_new=312, tp_free=320)
SQ = dict(sq_length=0, sq_concat=8, sq_repeat=16, sq_item=24, sq_ass_item=40, sq_contains=56, sq_inplace_concat=64,
          sq_inplace_repeat=72)
MP = dict(mp_length=0, mp_subscript=8, mp_ass_subscript=16)
TYPESIZE = 416
FL = dict(PyLong_Type=1 << 24, PyBool_Type=1 << 24, PyList_Type=1 << 25, PyTuple_Type=1 << 26, PyBytes_Type=1 << 27,
          PyUnicode_Type=1 << 28, PyDict_Type=1 << 29, PyType_Type=1 << 31)

API = {}


def api(*names, nofork=False, nogil_ok=False):
    def deco(f):
        for n in names:
            if nogil_ok:
                g = f
            else:
                def g(st, *a, _f=f, _n=n):
                    if not st.x['gil']:
                        raise Bug('no-gil', '%s called without holding the GIL' % _n)
                    return _f(st, *a)
            if nofork:
                g.nofork = True
            API[n] = g
        return f
    return deco


def install(eng):
    eng.natives.update(CNATIVES)
    eng.natives.update(API)
    eng.typeids = {}

    def typeid(a):
        if a not in eng.typeids:
            eng.typeids[a] = len(eng.typeids) + 1
        return eng.typeids[a]
    eng.typeid = typeid
    eng.on_extern_global = lambda name: extern_global(eng, name)
    eng.exc_names = {}
    eng.type_names = {}
    st = eng.base_state
    st.x['gil'] = True
    st.x['err'] = None
    st.x['faults'] = 0
    st.x['faults_on'] = False
    for n in ('PyType_Type', 'PyBaseObject_Type'):
        eng.sym_addr_global(n)
    init_types(eng)


def new_global(eng, size, name, init=0):
    r = eng._gl_region = getattr(eng, '_gl_region', 0x10000)
    eng._gl_region += 1
    o = Obj((r << REGION) + 64, size, 'global', init, name)
    eng.global_objs[r] = o
    return o


EXC_PARENT = {}


def extern_global(eng, name):
    if name.endswith('_Type') or name.startswith('_PyNone_Type'):
        o = new_global(eng, TYPESIZE, name)
        put8(o, 0, IMM)
        a = o.base
        eng.sym[name] = a
        eng.type_names[a] = name
        put8(o, 8, eng.sym_addr('PyType_Type') if name != 'PyType_Type' else a)
        s = new_global(eng, 32, name + '.name', (name[2:-5].lower() if name.startswith('Py') else name).encode() + b'\0' * 16)
        put8(o, 24, s.base)
        put8(o, 32, 64)
        put8(o, 168, FL.get(name, 0) | (1 << 12))
        return a
    if name.startswith('PyExc_'):
        t = new_global(eng, TYPESIZE, name + '.type')
        put8(t, 0, IMM)
        put8(t, 8, eng.sym_addr('PyType_Type'))
        put8(t, 168, (1 << 31) | (1 << 30) | (1 << 12))
        eng.exc_names[t.base] = name[6:]
        eng.type_names[t.base] = name[6:]
        eng.sym['&' + name] = t.base
        g = new_global(eng, 8, name)
        put8(g, 0, t.base)
        return g.base
    if name in ('_Py_NoneStruct', '_Py_TrueStruct', '_Py_FalseStruct', '_Py_NotImplementedStruct',
                '_Py_EllipsisObject'):
        o = new_global(eng, 40, name)
        put8(o, 0, IMM)
        ty = {'_Py_NoneStruct': '_PyNone_Type', '_Py_TrueStruct': 'PyBool_Type', '_Py_FalseStruct': 'PyBool_Type',
              '_Py_NotImplementedStruct': '_PyNotImplemented_Type', '_Py_EllipsisObject': 'PyEllipsis_Type'}[name]
        put8(o, 8, eng.sym_addr_global(ty))
        if 'True' in name or 'False' in name:
            v = int('True' in name)
            put8(o, 16, (v << 3) if v else 1)
            o.cells[24] = (4, v)
            eng.base_py[o.base] = ('long', v)
        else:
            eng.base_py[o.base] = ('singleton', name)
        return o.base
    if name.startswith('_ZTV'):
        n = 'v' + name
        o = new_global(eng, 64, name)
        o.ro = True
        for k, fn in ((16, '_ZNSt9exceptionD1Ev'), (24, '_ZNSt9exceptionD0Ev'), (32, '_ZNKSt9exception4whatEv')):
            put8(o, k, eng.native_addr(fn))
        return o.base
    if name.startswith('_ZTI'):
        return new_global(eng, 8, name).base
    if name in ('stdout', 'stderr', 'stdin'):
        o = new_global(eng, 8, name)
        f = new_global(eng, 8, name + '.FILE')
        put8(o, 0, f.base)
        return o.base
    if name in ('_ZSt7nothrow', 'PyExc_dummy'):
        return new_global(eng, 8, name).base
    return None


def put8(o, off, v):
    o.cells[off] = (8, v)
    o.maxw = max(o.maxw, 8)


def init_types(eng):
    for n in ('PyLong_Type', 'PyFloat_Type', 'PyList_Type', 'PyTuple_Type', 'PyUnicode_Type', 'PyBytes_Type',
              'PyBool_Type', 'PyDict_Type', 'PySlice_Type', '_PyNone_Type'):
        eng.sym_addr_global(n)
    for n in ('UserObj_Type', 'UserIter_Type', 'UserIterable_Type', 'UserSeq_Type', 'UserCallable_Type',
              'PyModule_Type', 'UserIndex_Type', 'PyByteArray_Type'):
        eng.sym_addr_global(n)
    o = eng.global_objs[eng.sym['PyLong_Type'] >> REGION]
    for t in ('PyLong_Type', 'PyFloat_Type', 'PyUnicode_Type', 'UserObj_Type', 'PyTuple_Type', 'PyBytes_Type',
              'PyList_Type'):
        o = eng.global_objs[eng.sym[t] >> REGION]
        put8(o, TP['tp_richcompare'], eng.native_addr('model_tp_richcompare'))
    for t in ('UserIter_Type',):
        o = eng.global_objs[eng.sym[t] >> REGION]
        put8(o, TP['tp_iternext'], eng.native_addr('model_iternext'))
        put8(o, TP['tp_iter'], eng.native_addr('PyObject_SelfIter'))
    for t in ('UserIterable_Type', 'PyList_Type', 'PyTuple_Type', 'UserSeq_Type'):
        o = eng.global_objs[eng.sym[t] >> REGION]
        if t != 'UserSeq_Type':
            put8(o, TP['tp_iter'], eng.native_addr('PyObject_GetIter'))
    # sequence protocol tables, so that inlined slot checks see them
    for t in ('PyList_Type', 'PyTuple_Type', 'UserSeq_Type', 'PyUnicode_Type', 'PyBytes_Type'):
        o = eng.global_objs[eng.sym[t] >> REGION]
        s = new_global(eng, 80, t + '.sq')
        put8(s, 0, eng.native_addr('PySequence_Size'))
        put8(s, 24, eng.native_addr('PySequence_GetItem'))
        put8(o, TP['tp_as_sequence'], s.base)
    for n in ('_Py_NoneStruct', '_Py_TrueStruct', '_Py_FalseStruct', '_Py_NotImplementedStruct'):
        eng.sym_addr_global(n)


# ------------------------------------------------------------------ helpers
def T(st, name):
    return st.eng.sym_addr_global(name)


def info(st, o):
    r = st.py.get(o)
    if r is None:
        r = st.eng.base_py.get(o)
    return r


def kind(st, o):
    i = info(st, o)
    return i[0] if i is not None else None


def set_err(st, exc, msg=''):
    st.x['err'] = (exc, msg)


def exc_name(st, a):
    if not isinstance(a, int):
        return '?'
    n = st.eng.exc_names.get(a)
    if n is None:
        i = info(st, a)
        if i and i[0] == 'exc':
            return i[1]
    return n or ('?%#x' % a)


def nomem(st):
    set_err(st, 'MemoryError')
    return NULL


def check_obj(st, o, what='object'):
    """o must point to a live python object"""
    if not isinstance(o, int):
        o = st.concretize(o, 32, what)
    if o < 65536:
        raise Bug('null-deref', 'NULL passed to the C API as ' + what)
    ob = st.obj(o)
    if ob is None:
        raise Bug('wild-access', 'wild object pointer passed to the C API')
    if not ob.alive:
        raise Bug('use-after-free', 'freed object (%s) passed to the C API' % (ob.name or ob.kind))
    return o


def new_obj(st, tname, size, name, faultable=True, inf=None, tag='PyObject'):
    a = st.new_region(size, 'pyobj', None, name, 16)
    o = st.obj(a)
    put8(o, 0, 1)
    put8(o, 8, T(st, tname) if isinstance(tname, str) else tname)
    if inf is not None:
        st.py[a] = inf
    return a


def long_cells(v):
    """lv_tag and digits of an int value (int or BV W)"""
    if isinstance(v, int):
        s = 0 if v > 0 else (1 if v == 0 else 2)
        d = []
        u = abs(v)
        while u:
            d.append(u & ((1 << 30) - 1))
            u >>= 30
        return (len(d) << 3) | s, d
    z = BitVecVal(0, W)
    ab = If(v < z, -v, v)
    nd = If(ab == z, BitVecVal(0, 64), If(z3.ULT(ab, BitVecVal(1 << 30, W)), BitVecVal(1 << 3, 64),
                                          If(z3.ULT(ab, BitVecVal(1 << 60, W)), BitVecVal(2 << 3, 64),
                                             BitVecVal(3 << 3, 64))))
    tag = nd | If(v < z, BitVecVal(2, 64), If(v == z, BitVecVal(1, 64), BitVecVal(0, 64)))
    d = [ZeroExt(2, Extract(29, 0, ab)), ZeroExt(2, Extract(59, 30, ab)), ZeroExt(2, Extract(89, 60, ab))]
    return z3.simplify(tag), [z3.simplify(x) for x in d]


def new_long(st, v, name='int object'):
    """v: python int or BV of W bits (signed)"""
    if not isinstance(v, int):
        v = norm(v)
        if isinstance(v, int):
            v = sext_int(v, W)
    tag, d = long_cells(v)
    a = new_obj(st, 'PyLong_Type', 24 + 4 * max(1, len(d)), name, inf=('long', v))
    o = st.obj(a)
    o.cells[16] = (8, tag)
    for i, x in enumerate(d):
        o.cells[24 + 4 * i] = (4, x)
    if not d:
        o.cells[24] = (4, 0)
    o.maxw = 8
    return a


def from64(v, signed=True):
    """64-bit guest value -> W bits"""
    if isinstance(v, int):
        return sext_int(v & M64, 64) if signed else v & M64
    return SignExt(W - 64, v) if signed else ZeroExt(W - 64, v)


def long_value(st, o):
    """value of an int object from its memory (so that direct writes count)"""
    i = info(st, o)
    if i is not None and i[0] == 'long':
        return i[1]
    return None


def incref(st, o):
    r = st.load(o, 8)
    if not isinstance(r, int):
        if st.x.get('symrc'):  # bounded away from zero and from the immortal range by the scenario
            return st.store(o, 8, norm(r + 1))
        raise Unsupported('symbolic refcount')
    if (r & 0x80000000):
        return
    st.store(o, 8, r + 1)


def decref(st, o):
    """drop a reference from model code; guest deallocators are queued"""
    r = st.load(o, 8, 'refcount read')
    if not isinstance(r, int):
        if st.x.get('symrc'):
            return st.store(o, 8, norm(r - 1))
        raise Unsupported('symbolic refcount')
    if r & 0x80000000:
        return
    if r <= 0:
        raise Bug('refcount-underflow', 'reference count of %s drops below zero' % desc(st, o))
    st.store(o, 8, r - 1)
    if r - 1 == 0:
        dealloc(st, o)


def desc(st, o):
    i = info(st, o)
    ob = st.obj(o)
    return '%s %s' % (i[0] if i else '?', ob.name if ob else '')


def dealloc(st, o):
    i = info(st, o)
    k = i[0] if i else None
    if k == 'guest' or (k == 'obj' and st.x.get('events') and st.eng.wants_del(st, o)):
        st.x['dq'] = st.x.get('dq', ()) + (o,)
        return
    if k == 'list':
        n = st.load(o + 16, 8)
        p = st.load(o + 24, 8)
        for j in range(n):
            c = st.load(p + 8 * j, 8)
            if c != 0:
                decref(st, c)
        if p:
            st.free_region(p)
    elif k == 'tuple':
        n = st.load(o + 16, 8)
        for j in range(n):
            c = st.load(o + 24 + 8 * j, 8)
            if c != 0:
                decref(st, c)
    elif k == 'iter':
        decref(st, i[1])
    elif k in ('iterable', 'seq'):
        for c in i[1]:
            decref(st, c)
    elif k == 'slice':
        for j in range(3):
            decref(st, st.load(o + 16 + 8 * j, 8))
    elif k == 'dict':
        for kk, v in i[1]:
            decref(st, v)
    elif k == 'singleton':
        raise Bug('refcount-underflow', 'immortal object deallocated')
    st.free_region(o)


def run_queue(st, ret=None):
    """if guest deallocators are pending push a host frame running them, then return ret"""
    if not st.x.get('dq'):
        return ret
    return st.push_host(_queue_step, {'ret': ret})


def _queue_step(st, hf, r):
    q = st.x.get('dq', ())
    if q:
        st.x['dq'] = q[1:]
        o = q[0]
        if kind(st, o) == 'obj':
            # finalizer of a user object: alive again while it runs
            st.store(o, 8, 1)
            st.eng.run_del(st, o)
            return
        d = st.load(st.load(o + 8, 8) + TP['tp_dealloc'], 8)
        st.call(d, (o,))
        return
    st.eng.host_return(st, hf.vars['ret'])


@api('_Py_Dealloc')
def py_dealloc(st, o):
    o = check_obj(st, o)
    i = info(st, o)
    if i is not None and i[0] == 'guest':
        d = st.load(st.load(o + 8, 8) + TP['tp_dealloc'], 8)
        return tail(st, d, (o,))
    dealloc(st, o)
    return run_queue(st)


def tail(st, target, args):
    fn = st.eng.fn_at(st, target) if isinstance(target, int) else target
    if callable(fn):
        return fn(st, *args)
    st.eng.push_guest(st, fn, list(args), -1, None, None)
    return PUSHED


@api('_Py_IncRef', 'Py_IncRef')
def py_incref(st, o):
    if o != 0:
        incref(st, check_obj(st, o))


@api('_Py_DecRef', 'Py_DecRef')
def py_decref(st, o):
    if o == 0:
        return
    o = check_obj(st, o)
    r = st.load(o, 8)
    if r & 0x80000000:
        return
    st.store(o, 8, r - 1)
    if r - 1 == 0:
        return py_dealloc(st, o)
    if r - 1 < 0:
        raise Bug('refcount-underflow', 'Py_DecRef')


@api('_Py_NegativeRefcount', '_Py_FatalErrorFunc', 'Py_FatalError')
def py_fatal(st, *a):
    raise Bug('fatal', 'Py_FatalError')


@api('_Py_NewReference', '_Py_ForgetReference', nofork=True)
def py_newref(st, o):
    pass


# ------------------------------------------------------------------ errors
@api('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', nofork=True)
def err_set(st, exc, msg=0, *a):
    set_err(st, exc_name(st, exc))


@api('PyErr_SetNone', nofork=True)
def err_setnone(st, exc):
    set_err(st, exc_name(st, exc))


@api('PyErr_Occurred', nofork=True)
def err_occ(st):
    e = st.x['err']
    if e is None:
        return 0
    st.eng.sym_addr('PyExc_' + e[0]) if not e[0].startswith('?') else None
    return st.eng.sym.get('&PyExc_' + e[0], T(st, 'PyBaseObject_Type'))


@api('PyErr_Clear', nofork=True)
def err_clear(st):
    st.x['err'] = None


@api('PyErr_NoMemory', nofork=True)
def err_nomem(st):
    set_err(st, 'MemoryError')
    return 0


@api('PyErr_BadInternalCall', '_PyErr_BadInternalCall', nofork=True)
def err_bad(st, *a):
    set_err(st, 'SystemError')


@api('PyErr_BadArgument', nofork=True)
def err_badarg(st):
    set_err(st, 'TypeError')
    return 0


SUBCLASS = {'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
            'OverflowError': 'ArithmeticError', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
            'TypeError': 'Exception', 'ValueError': 'Exception', 'RuntimeError': 'Exception',
            'NotImplementedError': 'RuntimeError', 'MemoryError': 'Exception', 'StopIteration': 'Exception',
            'AttributeError': 'Exception', 'SystemError': 'Exception', 'BufferError': 'Exception',
            'AssertionError': 'Exception', 'OSError': 'Exception', 'Exception': 'BaseException', 'EOFError': 'Exception',
            'UserError': 'Exception', 'UnicodeDecodeError': 'ValueError', 'RecursionError': 'RuntimeError'}


def is_sub(a, b):
    while a is not None:
        if a == b:
            return True
        a = SUBCLASS.get(a)
    return False


@api('PyErr_ExceptionMatches', nofork=True)
def err_match(st, exc):
    e = st.x['err']
    if e is None:
        return 0
    return int(is_sub(e[0], exc_name(st, exc)))


@api('PyErr_GivenExceptionMatches', nofork=True)
def err_gmatch(st, a, b):
    return int(is_sub(exc_name(st, a), exc_name(st, b)))


@api('PyErr_Fetch')
def err_fetch(st, pt, pv, ptb):
    e = st.x['err']
    if e is None:
        st.store(pt, 8, 0), st.store(pv, 8, 0), st.store(ptb, 8, 0)
        return
    a = new_obj(st, 'PyBaseObject_Type', 64, 'exception', inf=('exc', e[0]))
    st.eng.sym_addr('PyExc_' + e[0])
    st.store(pt, 8, st.eng.sym['&PyExc_' + e[0]])
    st.store(pv, 8, a)
    st.store(ptb, 8, 0)
    st.x['err'] = None


@api('PyErr_Restore')
def err_restore(st, t, v, tb):
    if t == 0:
        st.x['err'] = None
        return
    set_err(st, exc_name(st, t))
    if v:
        decref(st, v)


@api('PyErr_GetRaisedException')
def err_getraised(st):
    e = st.x['err']
    if e is None:
        return 0
    st.x['err'] = None
    return new_obj(st, 'PyBaseObject_Type', 64, 'exception', inf=('exc', e[0]))


@api('PyErr_SetRaisedException')
def err_setraised(st, v):
    if v == 0:
        st.x['err'] = None
        return
    set_err(st, info(st, v)[1])
    decref(st, v)


@api('PyErr_CheckSignals', nofork=True)
def err_signals(st):
    return 0


@api('PyErr_WarnEx', 'PyErr_WriteUnraisable', 'PyErr_WarnFormat', nofork=True)
def err_warn(st, *a):
    return 0


# ------------------------------------------------------------------ threads
@api('PyEval_SaveThread', nofork=True)
def save_thread(st):
    st.x['gil'] = False
    st.x['gil_released'] = st.x.get('gil_released', 0) + 1
    return T(st, 'PyBaseObject_Type')


@api('PyEval_RestoreThread', nofork=True, nogil_ok=True)
def restore_thread(st, t):
    if st.x['gil']:
        raise Bug('gil', 'PyEval_RestoreThread while holding the GIL (deadlock)')
    st.x['gil'] = True


@api('PyGILState_Ensure', nofork=True, nogil_ok=True)
def gil_ensure(st):
    r = 0 if st.x['gil'] else 1
    st.x['gil'] = True
    return r


@api('PyGILState_Release', nofork=True)
def gil_release(st, s):
    if s == 1:
        st.x['gil'] = False


@api('PyThreadState_Get', 'PyThreadState_GetUnchecked', '_PyThreadState_UncheckedGet', nofork=True)
def ts_get(st):
    return T(st, 'PyBaseObject_Type')


@api('Py_ReprEnter', nofork=True)
def repr_enter(st, o):
    s = st.x.get('repr', ())
    if o in s:
        return 1
    st.x['repr'] = s + (o,)
    return 0


@api('Py_ReprLeave', nofork=True)
def repr_leave(st, o):
    st.x['repr'] = tuple(x for x in st.x.get('repr', ()) if x != o)


@api('Py_EnterRecursiveCall', 'Py_LeaveRecursiveCall', nofork=True)
def rec(st, *a):
    return 0


# ------------------------------------------------------------------ memory
@api('PyMem_Malloc', 'PyObject_Malloc')
def mem_malloc(st, n):
    if fault(st, 'PyMem_Malloc'):
        return 0
    if isinstance(n, int) and n == 0:
        n = 1
    return alloc(st, n, 'pymem', 'PyMem_Malloc block')


@api('PyMem_RawMalloc', nogil_ok=True)
def mem_rmalloc(st, n):
    if fault(st, 'PyMem_Malloc'):
        return 0
    return alloc(st, max(n, 1) if isinstance(n, int) else n, 'pymemraw', 'PyMem_RawMalloc block')


@api('PyMem_Calloc', 'PyObject_Calloc')
def mem_calloc(st, a, b):
    if fault(st, 'PyMem_Malloc'):
        return 0
    n = norm(tobv(a, 64) * tobv(b, 64))
    return alloc(st, n, 'pymem', 'PyMem_Calloc block', init=0)


@api('PyMem_Realloc', 'PyObject_Realloc')
def mem_realloc(st, p, n):
    if p == 0:
        return mem_malloc(st, n)
    if fault(st, 'PyMem_Malloc'):
        return 0
    q = alloc(st, n, 'pymem', 'PyMem_Realloc block')
    if q == 0:
        return 0
    o = st.obj(p)
    if not o.alive:
        raise Bug('use-after-free', 'PyMem_Realloc of a freed block')
    k = min(o.size, st.obj(q).size)
    st.memcpy(q, p, k)
    st.free_region(p)
    return q


def pyfree(st, p, kinds, what):
    if p == 0:
        return
    if not isinstance(p, int):
        p = st.concretize(p, 8, what)
    o = st.obj(p)
    if o is None:
        raise Bug('invalid-free', what)
    if not o.alive:
        raise Bug('double-free', '%s of a freed %s' % (what, o.name))
    if o.base != p or o.kind not in kinds:
        raise Bug('invalid-free', '%s of %s' % (what, o.name))
    st.free_region(p)


@api('PyMem_Free')
def mem_free(st, p):
    pyfree(st, p, ('pymem',), 'PyMem_Free')


@api('PyMem_RawFree', nogil_ok=True)
def mem_rfree(st, p):
    pyfree(st, p, ('pymemraw',), 'PyMem_RawFree')


@api('PyObject_Free', 'PyObject_Del', 'PyObject_GC_Del')
def obj_free(st, p):
    pyfree(st, p, ('pymem', 'pyobj'), 'PyObject_Free')


def gen_alloc(st, ty, n=0):
    if fault(st, 'tp_alloc'):
        return nomem(st)
    size = st.load(ty + TP['tp_basicsize'], 8)
    a = st.new_region(size, 'pyobj', 0, 'instance of ' + type_name(st, ty), 16)
    o = st.obj(a)
    put8(o, 0, 1)
    put8(o, 8, ty)
    st.py[a] = ('guest', ty)
    return a


def type_name(st, ty):
    n = st.eng.type_names.get(ty)
    if n is None:
        p = st.load(ty + 24, 8)
        n = st.read_cstr(p).decode() if p else '?'
    return n


@api('PyType_GenericAlloc', '_PyObject_New', 'PyObject_GC_New', '_PyObject_GC_New')
def type_alloc(st, ty, n=0):
    return gen_alloc(st, ty)


@api('PyType_GenericNew')
def type_new(st, ty, args, kw):
    al = st.load(ty + TP['tp_alloc'], 8)
    return tail(st, al, (ty, 0)) if al else gen_alloc(st, ty)


@api('PyObject_Init')
def obj_init(st, o, ty):
    st.store(o, 8, 1)
    st.store(o + 8, 8, ty)
    st.py[o] = ('guest', ty)
    st.wobj(o >> REGION).kind = 'pyobj'
    return o


@api('PyType_Ready', nofork=True)
def type_ready(st, ty):
    st.x['ready'] = st.x.get('ready', frozenset()) | {ty}
    return 0


@api('PyObject_GC_Track', 'PyObject_GC_UnTrack', 'PyObject_ClearWeakRefs', nofork=True)
def gc_track(st, o):
    pass


@api('PyObject_HashNotImplemented')
def hash_ni(st, o):
    set_err(st, 'TypeError')
    return MINUS1


@api('PyType_IsSubtype')
def is_subtype(st, a, b):
    if a == b or b == T(st, 'PyBaseObject_Type'):
        return 1
    if a == T(st, 'PyBool_Type') and b == T(st, 'PyLong_Type'):
        return 1
    na, nb = st.eng.exc_names.get(a), st.eng.exc_names.get(b)
    if na and nb:
        return int(is_sub(na, nb))
    types = getattr(st.eng, 'guest_types', {}).values()
    while a in types:
        a = st.load(a + TP['tp_base'], 8)
        if a == b:
            return 1
    return 0


@api('PyObject_IsInstance')
def is_instance(st, o, t):
    return is_subtype(st, st.load(o + 8, 8), t)


@api('PyModule_Create2')
def module_create(st, d, v):
    if fault(st, 'PyModule_Create2'):
        return nomem(st)
    return new_obj(st, 'PyModule_Type', 64, 'module', inf=('module', d))


@api('PyModule_AddObject', 'PyModule_AddObjectRef')
def module_add(st, m, name, o):
    st.x['modobj'] = st.x.get('modobj', ()) + ((st.read_cstr(name).decode(), o),)
    return 0


@api('PyModule_AddType')
def module_addtype(st, m, ty):
    n = type_name(st, ty).split('.')[-1]
    type_ready(st, ty)
    incref(st, ty)
    st.x['modobj'] = st.x.get('modobj', ()) + ((n, ty),)
    return 0


@api('PyModule_AddIntConstant', 'PyModule_AddStringConstant')
def module_addconst(st, m, *a):
    return 0


# ------------------------------------------------------------------ ints
def index_value(st, o, what='int'):
    """value of o through __index__, or None with the error set"""
    o = check_obj(st, o, what)
    i = info(st, o)
    if i is not None:
        if i[0] == 'long':
            return i[1]
        if i[0] == 'index':
            return i[1]
    set_err(st, 'TypeError')
    return None


def conv(st, v, lo, hi):
    """value or None (OverflowError set)"""
    if isinstance(v, int):
        if v < lo or v > hi:
            set_err(st, 'OverflowError')
            return None
        return v
    if st.choose(And(v >= BitVecVal(lo, W), v <= BitVecVal(hi, W))):
        return v
    set_err(st, 'OverflowError')
    return None


def low(v, n):
    if isinstance(v, int):
        return v & ((1 << n) - 1)
    return norm(Extract(n - 1, 0, v))


I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1


@api('PyLong_AsLong', 'PyLong_AsLongLong')
def as_long(st, o):
    if o == 0:
        set_err(st, 'SystemError')
        return MINUS1
    v = index_value(st, o)
    if v is None:
        return MINUS1
    v = conv(st, v, I64MIN, I64MAX)
    return MINUS1 if v is None else low(v, 64)


@api('PyLong_AsLongAndOverflow', 'PyLong_AsLongLongAndOverflow')
def as_long_of(st, o, p):
    v = index_value(st, o)
    st.store(p, 4, 0)
    if v is None:
        return MINUS1
    if isinstance(v, int):
        if v > I64MAX:
            st.store(p, 4, 1)
            return MINUS1
        if v < I64MIN:
            st.store(p, 4, 0xffffffff)
            return MINUS1
        return low(v, 64)
    if st.choose(v > BitVecVal(I64MAX, W)):
        st.store(p, 4, 1)
        return MINUS1
    if st.choose(v < BitVecVal(I64MIN, W)):
        st.store(p, 4, 0xffffffff)
        return MINUS1
    return low(v, 64)


@api('_PyLong_AsInt', 'PyLong_AsInt')
def as_int(st, o):
    v = index_value(st, o)
    if v is None:
        return 0xffffffff
    v = conv(st, v, -(1 << 31), (1 << 31) - 1)
    return 0xffffffff if v is None else low(v, 32)


def strict_long(st, o):
    o = check_obj(st, o)
    v = long_value(st, o)
    if v is None:
        set_err(st, 'TypeError')
    return v


@api('PyLong_AsSsize_t')
def as_ssize(st, o):
    v = strict_long(st, o)
    if v is None:
        return MINUS1
    v = conv(st, v, I64MIN, I64MAX)
    return MINUS1 if v is None else low(v, 64)


@api('PyLong_AsSize_t', 'PyLong_AsUnsignedLong', 'PyLong_AsUnsignedLongLong')
def as_size(st, o):
    v = strict_long(st, o)
    if v is None:
        return MINUS1
    v = conv(st, v, 0, (1 << 64) - 1)
    return MINUS1 if v is None else low(v, 64)


@api('PyLong_AsUnsignedLongMask', 'PyLong_AsUnsignedLongLongMask')
def as_mask(st, o):
    v = index_value(st, o)
    return MINUS1 if v is None else low(v, 64)


@api('PyLong_AsVoidPtr')
def as_voidptr(st, o):
    o = check_obj(st, o)
    v = long_value(st, o)
    if v is None:
        set_err(st, 'TypeError')
        return 0
    # signed or unsigned 64-bit range
    v = conv(st, v, I64MIN, (1 << 64) - 1)
    return 0 if v is None else low(v, 64)


@api('PyLong_AsDouble')
def as_double(st, o):
    raise Unsupported('PyLong_AsDouble')


def ret_long(st, v, tag='PyLong_New'):
    if fault(st, tag):
        return nomem(st)
    return new_long(st, v)


@api('PyLong_FromLong', 'PyLong_FromLongLong', 'PyLong_FromSsize_t')
def from_long(st, v):
    return ret_long(st, from64(v))


@api('PyLong_FromSize_t', 'PyLong_FromUnsignedLong', 'PyLong_FromUnsignedLongLong', 'PyLong_FromVoidPtr')
def from_ulong(st, v):
    return ret_long(st, from64(v, False))


@api('PyBool_FromLong', nofork=True)
def bool_from(st, v):
    if not isinstance(v, int):
        raise Unsupported('symbolic bool') if False else SymBool()
    return T(st, '_Py_TrueStruct' if v else '_Py_FalseStruct')


class SymBool(Exception):
    pass


def bool_from2(st, v):
    if not isinstance(v, int):
        v = st.choose(v != 0)
    return T(st, '_Py_TrueStruct' if v else '_Py_FalseStruct')


API['PyBool_FromLong'] = bool_from2


@api('_PyLong_FromDigits')
def from_digits(st, neg, n, p):
    if fault(st, 'PyLong_New'):
        return nomem(st)
    if not isinstance(n, int):
        n = st.concretize(n, 8, 'digit count')
    n = sext_int(n & M64, 64)
    if n == 0:
        return T0(st)
    if not isinstance(neg, int):
        neg = int(st.choose(tobool(neg) if isinstance(neg, z3.BoolRef) else neg != 0))
    if n < 0 or n > 3:
        raise Unsupported('digit count %d' % n)
    v = 0
    sym = False
    ds = []
    for i in range(n):
        d = st.load(p + 4 * i if isinstance(p, int) else norm(p + 4 * i), 4)
        ds.append(d)
        sym |= not isinstance(d, int)
    if not sym:
        for i, d in enumerate(ds):
            v += d << (30 * i)
        if neg:
            v = -v
    else:
        v = BitVecVal(0, W)
        for i, d in enumerate(ds):
            v = v + (ZeroExt(W - 32, tobv(d, 32)) << (30 * i))
        if neg:
            v = -v
        v = z3.simplify(v)
    # digits must be < 2**30 and the number normalised, else later arithmetic is wrong
    bad = None
    for d in ds:
        c = z3.UGE(d, BitVecVal(1 << 30, 32)) if not isinstance(d, int) else d >= 1 << 30
        if st.choose(c):
            bad = 'digit out of range'
            break
    if bad is None:
        top = ds[-1]
        if st.choose(top == 0 if isinstance(top, int) else top == BitVecVal(0, 32)):
            bad = 'unnormalised int'
    a = new_obj(st, 'PyLong_Type', 24 + 4 * n, 'int object', inf=('long', v))
    o = st.obj(a)
    o.cells[16] = (8, (n << 3) | (2 if neg else 0))
    for i, d in enumerate(ds):
        o.cells[24 + 4 * i] = (4, d)
    if bad:
        raise Bug('malformed-int', 'the extension builds a malformed int object (%s)' % bad)
    return a


def T0(st):
    return new_long(st, 0)


@api('_PyLong_New')
def long_new(st, n):
    raise Unsupported('_PyLong_New')


@api('_PyLong_Sign')
def long_sign(st, o):
    v = long_value(st, o)
    if isinstance(v, int):
        return (v > 0) - (v < 0) & 0xffffffff
    if st.choose(v < 0):
        return 0xffffffff
    return int(st.choose(v > 0))


@api('PyIndex_Check', nofork=True)
def index_check(st, o):
    return int(kind(st, check_obj(st, o)) in ('long', 'index'))


@api('PyNumber_Check', nofork=True)
def number_check(st, o):
    return int(kind(st, check_obj(st, o)) in ('long', 'index', 'float'))


@api('PyNumber_Index', 'PyNumber_Long')
def number_index(st, o):
    v = index_value(st, o)
    if v is None:
        return 0
    if kind(st, o) == 'long':
        incref(st, o)
        return o
    return new_long(st, v)


@api('PyNumber_AsSsize_t')
def number_as_ssize(st, o, exc):
    v = index_value(st, o)
    if v is None:
        return MINUS1
    if exc == 0:
        if isinstance(v, int):
            return max(min(v, I64MAX), I64MIN) & M64
        if st.choose(v > BitVecVal(I64MAX, W)):
            return I64MAX
        if st.choose(v < BitVecVal(I64MIN, W)):
            return 1 << 63
        return low(v, 64)
    v = conv(st, v, I64MIN, I64MAX)
    if v is None:
        set_err(st, exc_name(st, exc))
        return MINUS1
    return low(v, 64)


@api('PyFloat_AsDouble')
def float_asdouble(st, o):
    i = info(st, check_obj(st, o))
    if i[0] == 'float':
        return st.load(o + 16, 8)
    set_err(st, 'TypeError')
    return 0xBFF0000000000000


@api('PyFloat_FromDouble')
def float_fromdouble(st, d):
    if fault(st, 'PyFloat_FromDouble'):
        return nomem(st)
    return new_float(st, d)


def new_float(st, bits):
    a = new_obj(st, 'PyFloat_Type', 24, 'float object', inf=('float', bits))
    st.store(a + 16, 8, bits)
    return a


# ------------------------------------------------------------------ lists and tuples
def new_list_raw(st, items, name='list object'):
    """items: object addresses, references stolen"""
    a = new_obj(st, 'PyList_Type', 40, name, inf=('list',))
    o = st.obj(a)
    n = len(items)
    put8(o, 16, n)
    put8(o, 32, n)
    if n:
        p = st.new_region(8 * n, 'pymem-list', 0, 'list items', 16)
        po = st.obj(p)
        for i, x in enumerate(items):
            put8(po, 8 * i, x)
        put8(o, 24, p)
    else:
        put8(o, 24, 0)
    return a


def new_tuple_raw(st, items, name='tuple object'):
    a = new_obj(st, 'PyTuple_Type', 24 + 8 * max(1, len(items)), name, inf=('tuple',))
    o = st.obj(a)
    put8(o, 16, len(items))
    for i, x in enumerate(items):
        put8(o, 24 + 8 * i, x)
    return a


def list_items(st, o):
    n = st.load(o + 16, 8)
    p = st.load(o + 24, 8)
    return [st.load(p + 8 * i, 8) for i in range(n)]


def tuple_items(st, o):
    n = st.load(o + 16, 8)
    return [st.load(o + 24 + 8 * i, 8) for i in range(n)]


@api('PyList_New')
def list_new(st, n):
    if fault(st, 'PyList_New'):
        return nomem(st)
    n = sizearg(st, n, 'list size')
    if n is None:
        return nomem(st)
    if n < 0:
        set_err(st, 'SystemError')
        return 0
    return new_list_raw(st, [0] * n)


def sizearg(st, n, what):
    if not isinstance(n, int):
        if st.choose(n > BitVecVal(4096, 64)):
            if st.choose(n > BitVecVal((1 << 60) - 1, 64)):
                return None
            raise Unsupported('large ' + what)
        n = st.concretize(n, 64, what)
    n = sext_int(n & M64, 64)
    if n > 1 << 33:
        return None
    if n > 1 << 16:
        raise Unsupported('large ' + what)
    return n


@api('PyTuple_New')
def tuple_new(st, n):
    if fault(st, 'PyTuple_New'):
        return nomem(st)
    n = sizearg(st, n, 'tuple size')
    if n is None:
        return nomem(st)
    return new_tuple_raw(st, [0] * n)


@api('PyTuple_Pack')
def tuple_pack(st, n, *items):
    if fault(st, 'PyTuple_New'):
        return nomem(st)
    for x in items[:n]:
        incref(st, x)
    return new_tuple_raw(st, list(items[:n]))


@api('PyList_Size')
def list_size(st, o):
    if kind(st, o) != 'list':
        set_err(st, 'SystemError')
        return MINUS1
    return st.load(o + 16, 8)


@api('PyTuple_Size')
def tuple_size(st, o):
    if kind(st, o) != 'tuple':
        set_err(st, 'SystemError')
        return MINUS1
    return st.load(o + 16, 8)


def item_at(st, items, i):
    if not isinstance(i, int):
        for k in range(len(items)):
            if st.choose(i == BitVecVal(k, 64)):
                return items[k]
        return None
    i = sext_int(i & M64, 64)
    return items[i] if 0 <= i < len(items) else None


@api('PyList_GetItem')
def list_getitem(st, o, i):
    r = item_at(st, list_items(st, o), i)
    if r is None:
        set_err(st, 'IndexError')
        return 0
    return r


@api('PyTuple_GetItem')
def tuple_getitem(st, o, i):
    r = item_at(st, tuple_items(st, o), i)
    if r is None:
        set_err(st, 'IndexError')
        return 0
    return r


@api('PyList_SetItem')
def list_setitem(st, o, i, v):
    n = st.load(o + 16, 8)
    if not isinstance(i, int):
        i = st.concretize(i, 32, 'list index')
    i = sext_int(i & M64, 64)
    if i < 0 or i >= n:
        if v:
            decref(st, v)
        set_err(st, 'IndexError')
        return 0xffffffff
    p = st.load(o + 24, 8) + 8 * i
    old = st.load(p, 8)
    st.store(p, 8, v)
    if old:
        decref(st, old)
    return run_queue(st, 0)


@api('PyTuple_SetItem')
def tuple_setitem(st, o, i, v):
    p = o + 24 + 8 * i
    old = st.load(p, 8)
    st.store(p, 8, v)
    if old:
        decref(st, old)
    return run_queue(st, 0)


def list_set_items(st, o, items):
    old = st.load(o + 24, 8)
    n = len(items)
    if n:
        p = st.new_region(8 * n, 'pymem-list', 0, 'list items', 16)
        for i, x in enumerate(items):
            st.store(p + 8 * i, 8, x)
    else:
        p = 0
    st.store(o + 16, 8, n)
    st.store(o + 24, 8, p)
    st.store(o + 32, 8, n)
    if old:
        st.free_region(old)


@api('PyList_Append')
def list_append(st, o, v):
    if fault(st, 'PyList_Append'):
        nomem(st)
        return 0xffffffff
    incref(st, v)
    list_set_items(st, o, list_items(st, o) + [v])
    return 0


@api('PyList_Insert')
def list_insert(st, o, i, v):
    incref(st, v)
    it = list_items(st, o)
    i = st.concretize(i, 32, 'index') if not isinstance(i, int) else i
    it.insert(sext_int(i, 64), v)
    list_set_items(st, o, it)
    return 0


@api('PyList_AsTuple')
def list_astuple(st, o):
    if fault(st, 'PyTuple_New'):
        return nomem(st)
    it = list_items(st, o)
    for x in it:
        incref(st, x)
    return new_tuple_raw(st, it)


@api('PyList_GetSlice')
def list_getslice(st, o, a, b):
    it = list_items(st, o)
    n = len(it)
    a, b = [sext_int(st.concretize(x, 32, 'slice') if not isinstance(x, int) else x, 64) for x in (a, b)]
    a = max(0, min(a, n))
    b = max(a, min(b, n))
    it = it[a:b]
    for x in it:
        incref(st, x)
    return new_list_raw(st, it)


@api('PyList_Reverse')
def list_reverse(st, o):
    it = list_items(st, o)
    list_set_items(st, o, it[::-1])
    return 0


# ------------------------------------------------------------------ iteration and sequences
def is_guest(st, o):
    return kind(st, o) == 'guest'


def slot(st, o, name):
    ty = st.load(o + 8, 8)
    return st.load(ty + TP[name], 8)


def sqslot(st, o, name):
    t = slot(st, o, 'tp_as_sequence')
    return st.load(t + SQ[name], 8) if t else 0


def mpslot(st, o, name):
    t = slot(st, o, 'tp_as_mapping')
    return st.load(t + MP[name], 8) if t else 0


@api('PyObject_SelfIter')
def self_iter(st, o):
    incref(st, o)
    return o


@api('PyObject_GetIter')
def get_iter(st, o):
    o = check_obj(st, o)
    k = kind(st, o)
    if k == 'guest':
        f = slot(st, o, 'tp_iter')
        if not f:
            set_err(st, 'TypeError')
            return 0
        return tail(st, f, (o,))
    if k in ('list', 'tuple', 'iterable', 'seq'):
        inf = info(st, o)
        if k == 'iterable' and inf[2].get('iter_raises'):
            set_err(st, 'UserError')
            return 0
        if fault(st, 'PyObject_GetIter'):
            return nomem(st)
        incref(st, o)
        a = new_obj(st, 'UserIter_Type', 32, 'iterator', inf=('iter', o))
        st.store(a + 16, 8, 0)
        return a
    if k == 'iter':
        incref(st, o)
        return o
    if k == 'str':
        a = new_obj(st, 'UserIter_Type', 32, 'iterator', inf=('iter', str_chars(st, o)))
        st.store(a + 16, 8, 0)
        return a
    set_err(st, 'TypeError')
    return 0


def iter_next(st, o):
    """next item of a model iterator (new reference) or 0"""
    inf = info(st, o)
    src = inf[1]
    i = st.load(o + 16, 8)
    k = kind(st, src)
    if k == 'list':
        items = list_items(st, src)
        end = None
    elif k == 'tuple':
        items = tuple_items(st, src)
        end = None
    else:
        si = info(st, src)
        items = si[1]
        end = si[2].get('end')
    if i >= len(items):
        if end == 'raise' and i < (1 << 40):
            st.store(o + 16, 8, 1 << 40)
            set_err(st, 'UserError')
            return 0
        st.store(o + 16, 8, 1 << 40)
        return 0
    st.store(o + 16, 8, i + 1)
    x = items[i]
    incref(st, x)
    return x


@api('model_iternext')
def model_iternext(st, o):
    return iter_next(st, o)


@api('PyIter_Next')
def py_iter_next(st, o):
    o = check_obj(st, o, 'iterator')
    k = kind(st, o)
    if k == 'iter':
        return iter_next(st, o)
    if k == 'guest':
        f = slot(st, o, 'tp_iternext')
        st.push_host(_iternext_step, {'o': o, 'f': f})
        return PUSHED
    raise Bug('bad-api-use', 'PyIter_Next on a non-iterator')


def _iternext_step(st, hf, r):
    if 'go' not in hf.vars:
        hf.vars['go'] = 1
        st.call(hf.vars['f'], (hf.vars['o'],))
        return
    if r == 0 and st.x['err'] is not None and st.x['err'][0] == 'StopIteration':
        st.x['err'] = None
    st.eng.host_return(st, r)


@api('PyIter_Check', nofork=True)
def iter_check(st, o):
    if kind(st, o) == 'guest':
        return int(slot(st, o, 'tp_iternext') != 0)
    return int(kind(st, o) == 'iter')


@api('PyObject_LengthHint', 'PyObject_Size', 'PyObject_Length', 'PySequence_Size', 'PySequence_Length')
def length_dispatch(st, o, default=None):
    raise Unsupported('dispatch')


def seq_size(st, o):
    o = check_obj(st, o)
    k = kind(st, o)
    if k in ('list', 'tuple'):
        return st.load(o + 16, 8)
    if k == 'guest':
        f = sqslot(st, o, 'sq_length')
        if not f:
            set_err(st, 'TypeError')
            return MINUS1
        return tail(st, f, (o,))
    if k == 'seq':
        d = info(st, o)[2]
        if d.get('len_raises'):
            set_err(st, 'UserError')
            return MINUS1
        return d.get('len', len(info(st, o)[1]))
    if k == 'str' or k == 'bytes':
        return len(info(st, o)[1])
    set_err(st, 'TypeError')
    return MINUS1


for _n in ('PyObject_Size', 'PyObject_Length', 'PySequence_Size', 'PySequence_Length'):
    api(_n)(seq_size)


@api('PyObject_LengthHint')
def length_hint(st, o, default):
    o = check_obj(st, o)
    k = kind(st, o)
    if k in ('iterable', 'iter'):
        d = info(st, o)[2] if k == 'iterable' else {}
        h = d.get('hint')
        if h is None:
            return default
        if h == 'raise':
            set_err(st, 'UserError')
            return MINUS1
        # __length_hint__ returns any int: negative -> ValueError, > ssize_t -> OverflowError
        return h
    if k in ('list', 'tuple', 'guest', 'seq'):
        return seq_size(st, o)
    return default


@api('PySequence_Check', nofork=True)
def seq_check(st, o):
    o = check_obj(st, o)
    k = kind(st, o)
    if k == 'guest':
        return int(sqslot(st, o, 'sq_item') != 0)
    return int(k in ('list', 'tuple', 'seq', 'str', 'bytes'))


@api('PySequence_GetItem', 'PySequence_ITEM')
def seq_getitem(st, o, i):
    o = check_obj(st, o)
    k = kind(st, o)
    if k == 'guest':
        f = sqslot(st, o, 'sq_item')
        if not f:
            set_err(st, 'TypeError')
            return 0
        neg = i < 0 if not isinstance(i, int) else sext_int(i, 64) < 0
        if st.choose(neg):
            raise Unsupported('negative PySequence_GetItem on an extension object')
        return tail(st, f, (o, i))
    if k in ('list', 'tuple', 'seq'):
        items = list_items(st, o) if k == 'list' else tuple_items(st, o) if k == 'tuple' else list(info(st, o)[1])
        n = len(items)
        if not isinstance(i, int):
            i = st.concretize(i, 32, 'sequence index')
        i = sext_int(i & M64, 64)
        if k == 'seq' and info(st, o)[2].get('raise_at') == i:
            set_err(st, 'UserError')
            return 0
        if i < 0:
            i += n
        if i < 0 or i >= n:
            set_err(st, 'IndexError')
            return 0
        incref(st, items[i])
        return items[i]
    if k == 'str':
        c = info(st, o)[1]
        i = sext_int(st.concretize(i, 32, 'string index') & M64, 64)
        if not -len(c) <= i < len(c):
            set_err(st, 'IndexError')
            return 0
        return new_str(st, (c[i],))
    set_err(st, 'TypeError')
    return 0


def fast_items(st, o):
    """items of a model iterable (borrowed), or None when the iteration needs guest code / fails"""
    k = kind(st, o)
    if k == 'list':
        return list_items(st, o)
    if k == 'tuple':
        return tuple_items(st, o)
    if k in ('iterable', 'seq'):
        return list(info(st, o)[1])
    return None


def materialise(st, o, as_list, tag):
    """list(o) / tuple(o): new object"""
    k = kind(st, o)
    if k == 'guest' or k == 'iter' or (st.x.get('events') and k in ('iterable', 'seq')):
        return st.push_host(_materialise_step, {'o': o, 'list': as_list, 'phase': 0, 'items': []})
    items = fast_items(st, o)
    if items is None:
        set_err(st, 'TypeError')
        return 0
    d = info(st, o)[2] if k in ('iterable', 'seq') else {}
    if d.get('end') == 'raise' or d.get('iter_raises') or d.get('hint') == 'raise':
        set_err(st, 'UserError')
        return 0
    if fault(st, tag):
        return nomem(st)
    for x in items:
        incref(st, x)
    return new_list_raw(st, items) if as_list else new_tuple_raw(st, items)


def _materialise_step(st, hf, r):
    v = hf.vars
    if v['phase'] == 0:
        v['phase'] = 1
        o = v['o']
        if kind(st, o) == 'iter':
            incref(st, o)
            hf.pend = (o,)
        elif kind(st, o) != 'guest':
            r = st.eng.natives['PyObject_GetIter'](st, o)
            if r is not PUSHED:
                hf.pend = (r,)
        else:
            st.call(slot(st, o, 'tp_iter'), (o,))
        return
    if v['phase'] == 1:
        if r == 0:
            st.eng.host_return(st, 0)
            return
        v['it'] = r
        v['phase'] = 2
        hf.pend = None
        _mat_next(st, hf)
        return
    if v['phase'] == 2:
        if r == 0:
            err = st.x['err']
            if err is not None and err[0] == 'StopIteration':
                st.x['err'] = None
                err = None
            decref(st, v['it'])
            if err is not None:
                for x in v['items']:
                    decref(st, x)
                res = 0
            else:
                res = new_list_raw(st, v['items']) if v['list'] else new_tuple_raw(st, v['items'])
            v['phase'] = 3
            v['res'] = res
            q = st.x.get('dq', ())
            if q:
                st.push_host(_queue_step, {'ret': res})
                return
            st.eng.host_return(st, res)
            return
        v['items'] = v['items'] + [r]
        _mat_next(st, hf)
        return
    st.eng.host_return(st, v['res'])


def _mat_next(st, hf):
    it = hf.vars['it']
    if kind(st, it) == 'iter':
        r = st.eng.natives['model_iternext'](st, it)
        if r is not PUSHED:
            hf.pend = (r,)
        return
    st.call(slot(st, it, 'tp_iternext'), (it,))


@api('PySequence_List')
def seq_list(st, o):
    return materialise(st, check_obj(st, o), True, 'PyList_New')


@api('PySequence_Tuple')
def seq_tuple(st, o):
    o = check_obj(st, o)
    if kind(st, o) == 'tuple':
        incref(st, o)
        return o
    return materialise(st, o, False, 'PyTuple_New')


@api('PySequence_Fast')
def seq_fast(st, o, msg):
    o = check_obj(st, o)
    if kind(st, o) in ('list', 'tuple'):
        incref(st, o)
        return o
    return materialise(st, o, True, 'PyList_New')


@api('PySequence_Concat')
def seq_concat(st, a, b):
    ka, kb = kind(st, a), kind(st, b)
    if ka == 'guest':
        return tail(st, sqslot(st, a, 'sq_concat'), (a, b))
    if ka == 'list' and kb == 'list':
        if fault(st, 'PyList_New'):
            return nomem(st)
        items = list_items(st, a) + list_items(st, b)
        for x in items:
            incref(st, x)
        return new_list_raw(st, items)
    if ka == 'tuple' and kb == 'tuple':
        items = tuple_items(st, a) + tuple_items(st, b)
        for x in items:
            incref(st, x)
        return new_tuple_raw(st, items)
    set_err(st, 'TypeError')
    return 0


@api('PySequence_InPlaceConcat')
def seq_iconcat(st, a, b):
    ka = kind(st, a)
    if ka == 'list':
        items = fast_items(st, b)
        if items is None:
            raise Unsupported('inplace concat of a non-sequence')
        for x in items:
            incref(st, x)
        list_set_items(st, a, list_items(st, a) + items)
        incref(st, a)
        return a
    raise Unsupported('PySequence_InPlaceConcat')


@api('PyList_SetSlice')
def list_setslice(st, o, a, b, v):
    it = list_items(st, o)
    n = len(it)
    a, b = [sext_int(st.concretize(x, 32, 'slice') if not isinstance(x, int) else x, 64) for x in (a, b)]
    a = max(0, min(a, n))
    b = max(a, min(b, n))
    new = [] if v == 0 else fast_items(st, v)
    if new is None:
        raise Unsupported('PyList_SetSlice source')
    for x in new:
        incref(st, x)
    old = it[a:b]
    list_set_items(st, o, it[:a] + new + it[b:])
    for x in old:
        decref(st, x)
    return run_queue(st, 0)


@api('PySlice_Unpack')
def slice_unpack(st, s, pa, po, ps):
    s = check_obj(st, s)
    if kind(st, s) != 'slice':
        # CPython reads the fields without a check; the caller must have checked the type
        raise Bug('bad-api-use', 'PySlice_Unpack on an object that is not a slice')
    a, o, p = [st.load(s + 16 + 8 * i, 8) for i in range(3)]
    none = T(st, '_Py_NoneStruct')

    def ev(x):
        """_PyEval_SliceIndex: clamps"""
        v = index_value(st, x)
        if v is None:
            return None
        if isinstance(v, int):
            return max(min(v, I64MAX), I64MIN)
        return If(v > BitVecVal(I64MAX, W), BitVecVal(I64MAX, W), If(v < BitVecVal(I64MIN, W), BitVecVal(I64MIN, W), v))
    if p == none:
        step = 1
    else:
        v = ev(p)
        if v is None:
            return 0xffffffff
        if st.choose(v == 0 if isinstance(v, int) else v == BitVecVal(0, W)):
            set_err(st, 'ValueError')
            return 0xffffffff
        if isinstance(v, int):
            step = max(v, -I64MAX)
        else:
            step = norm(If(v < BitVecVal(-I64MAX, W), BitVecVal(-I64MAX, W), v))
    neg = st.choose(step < 0 if isinstance(step, int) else step < BitVecVal(0, W))
    if a == none:
        start = I64MAX if neg else 0
    else:
        start = ev(a)
        if start is None:
            return 0xffffffff
    if o == none:
        stop = I64MIN if neg else I64MAX
    else:
        stop = ev(o)
        if stop is None:
            return 0xffffffff
    st.store(pa, 8, low(start, 64))
    st.store(po, 8, low(stop, 64))
    st.store(ps, 8, low(step, 64))
    return 0


@api('PySlice_AdjustIndices')
def slice_adjust(st, length, ps, pe, step):
    start = st.load(ps, 8)
    stop = st.load(pe, 8)
    L = tobv(length, 64)
    Z = BitVecVal(0, 64)
    M1 = BitVecVal(M64, 64)
    sneg = st.choose(step < Z if not isinstance(step, int) else sext_int(step, 64) < 0)

    def adj(x):
        x = tobv(x, 64)
        if st.choose(x < Z):
            x = x + L
            if st.choose(x < Z):
                return M1 if sneg else Z
            return z3.simplify(x)
        if st.choose(x >= L):
            return z3.simplify(L - 1) if sneg else L
        return x
    a = adj(start)
    b = adj(stop)
    a, b = norm(a), norm(b)
    if isinstance(length, int) and length <= 64:
        # both lie in -1..length: enumerate them (exhaustively), so that the division below is by cases on the step
        a = st.concretize(a, 66, 'slice start')
        b = st.concretize(b, 66, 'slice stop')
        st.store(ps, 8, a)
        st.store(pe, 8, b)
        d = (sext_int(a, 64) - sext_int(b, 64)) if sneg else (sext_int(b, 64) - sext_int(a, 64))
        if d <= 0:
            return 0
        for k in range(1, d + 1):
            lim = -(-d // k)
            if k == d:
                return k
            if isinstance(step, int):
                ok = abs(sext_int(step, 64)) >= lim
            else:
                ok = step <= BitVecVal(-lim, 64) if sneg else step >= BitVecVal(lim, 64)
            if st.choose(ok):
                return k
    st.store(ps, 8, a)
    st.store(pe, 8, b)
    A, B, S = tobv(a, 64), tobv(b, 64), tobv(step, 64)
    if sneg:
        if st.choose(norm(B < A) == 1 if isinstance(norm(B < A), int) else B < A):
            return norm((A - B - 1) / (-S) + 1)
        return 0
    if st.choose(A < B):
        return norm((B - A - 1) / S + 1)
    return 0


@api('PySlice_GetIndicesEx')
def slice_indices_ex(st, s, length, pa, po, ps, pl):
    r = slice_unpack(st, s, pa, po, ps)
    if r:
        return r
    n = slice_adjust(st, length, pa, po, st.load(ps, 8))
    st.store(pl, 8, n)
    return 0


def new_slice(st, a, b, c):
    """references stolen"""
    o = new_obj(st, 'PySlice_Type', 40, 'slice object', inf=('slice',))
    for i, x in enumerate((a, b, c)):
        st.store(o + 16 + 8 * i, 8, x)
    return o


# ------------------------------------------------------------------ comparison, truth, calls
OPS = {0: 'lt', 1: 'le', 2: 'eq', 3: 'ne', 4: 'gt', 5: 'ge'}
REFL = {0: 4, 1: 5, 2: 2, 3: 3, 4: 0, 5: 1}


def cmp_expr(x, y, op):
    if isinstance(x, int) and isinstance(y, int):
        return [x < y, x <= y, x == y, x != y, x > y, x >= y][op]
    X, Y = tobv(x if not isinstance(x, int) else x & ((1 << W) - 1), W), \
        tobv(y if not isinstance(y, int) else y & ((1 << W) - 1), W)
    return [X < Y, X <= Y, X == Y, X != Y, X > Y, X >= Y][op]


def is_nan(b):
    if isinstance(b, int):
        return b & (1 << 63) - 1 > 0x7ff << 52
    return z3.UGT(b & BitVecVal((1 << 63) - 1, 64), BitVecVal(0x7ff << 52, 64))


def float_key(b):
    """integer of W bits in the order of the doubles with these bits"""
    if isinstance(b, int):
        m = b & (1 << 63) - 1
        return -m if b >> 63 else m
    m = z3.ZeroExt(W - 63, z3.Extract(62, 0, b))
    return If(z3.Extract(63, 63, b) == 1, -m, m)


def text_eq(x, y):
    if len(x) != len(y):
        return False
    cs = []
    for p, q in zip(x, y):
        if isinstance(p, int) and isinstance(q, int):
            if p != q:
                return False
        else:
            cs.append(tobv(p, 8) == tobv(q, 8))
    return And(*cs) if cs else True


def text_lt(x, y):
    r = len(x) < len(y)
    for p, q in reversed(list(zip(x, y))):
        if isinstance(p, int) and isinstance(q, int):
            r = p < q or r if p <= q and p != q else (r if p == q else False)
        else:
            P, Q = tobv(p, 8), tobv(q, 8)
            r = Or(z3.ULT(P, Q), And(P == Q, r))
    return r


def model_compare(st, a, b, op):
    """-> True/False/'error'/'notimpl' for model objects"""
    ia, ib = info(st, a), info(st, b)
    ka, kb = ia[0], ib[0]
    if ka == 'obj' or kb == 'obj':
        for i in (ia, ib):
            if i[0] == 'obj' and i[3] is not None and st.choose(i[3]):
                set_err(st, 'UserError')
                return 'error'
        if ka == 'obj' and kb == 'obj':
            return st.choose(cmp_expr(ia[2], ib[2], op))
        if op == 2:
            return a == b
        if op == 3:
            return a != b
        return 'notimpl'
    if ka == 'long' and kb == 'long':
        return st.choose(cmp_expr(ia[1], ib[1], op))
    if ka == kb == 'float':
        k = []
        for x in (ia[1], ib[1]):
            if st.choose(is_nan(x)):
                return op == 3
            k.append(float_key(x))
        return st.choose(cmp_expr(k[0], k[1], op))
    if ka == kb == 'str':
        x, y = ia[1], ib[1]
        eq = text_eq(x, y)
        if op in (2, 3):
            return st.choose(eq if op == 2 else not eq if isinstance(eq, bool) else Not(eq))
        lt = text_lt(x, y) if op in (0, 1) else text_lt(y, x)
        if op in (0, 4):
            return st.choose(lt)
        return st.choose(lt) or st.choose(eq)
    if ka == kb == 'tuple':
        xs, ys = tuple_items(st, a), tuple_items(st, b)
        for x, y in zip(xs, ys):
            if kind(st, x) == 'guest' or kind(st, y) == 'guest':
                raise Unsupported('tuple of lists compared')
            if x == y:
                continue
            e = model_compare(st, x, y, 2)
            if e == 'error':
                return e
            if e is not True:
                return False if op == 2 else True if op == 3 else model_compare(st, x, y, op)
        return cmp_expr(len(xs), len(ys), op)
    if ka == kb and ka in ('list', 'tuple'):
        raise Unsupported('list comparison')
    if op == 2:
        return a == b
    if op == 3:
        return a != b
    return 'notimpl'


@api('model_tp_richcompare')
def model_tp_richcompare(st, a, b, op):
    r = model_compare(st, a, b, op)
    if r == 'error':
        return 0
    if r == 'notimpl':
        return T(st, '_Py_NotImplementedStruct')
    return T(st, '_Py_TrueStruct' if r else '_Py_FalseStruct')


@api('PyObject_RichCompare')
def rich_compare(st, a, b, op):
    a = check_obj(st, a)
    b = check_obj(st, b)
    if kind(st, a) == 'guest':
        return tail(st, slot(st, a, 'tp_richcompare'), (a, b, op))
    if kind(st, b) == 'guest':
        return tail(st, slot(st, b, 'tp_richcompare'), (b, a, REFL[op]))
    st.x['ncmp'] = st.x.get('ncmp', 0) + 1
    r = model_compare(st, a, b, op)
    if r == 'error':
        return 0
    if r == 'notimpl':
        set_err(st, 'TypeError')
        return 0
    return T(st, '_Py_TrueStruct' if r else '_Py_FalseStruct')


@api('PyObject_RichCompareBool')
def rich_compare_bool(st, a, b, op):
    a = check_obj(st, a)
    b = check_obj(st, b)
    if a == b:
        if op == 2:
            return 1
        if op == 3:
            return 0
    if kind(st, a) == 'guest' or kind(st, b) == 'guest':
        return st.push_host(_rcb_step, {'a': a, 'b': b, 'op': op, 'phase': 0})
    r = model_compare(st, a, b, op)
    if r == 'error':
        return 0xffffffff
    if r == 'notimpl':
        set_err(st, 'TypeError')
        return 0xffffffff
    return int(r)


def _rcb_step(st, hf, r):
    v = hf.vars
    if v['phase'] == 0:
        v['phase'] = 1
        x = rich_compare(st, v['a'], v['b'], v['op'])
        if x is not PUSHED:
            hf.pend = (x,)
        return
    if r == 0:
        st.eng.host_return(st, 0xffffffff)
        return
    t = 1 if r == T(st, '_Py_TrueStruct') else 0
    st.eng.host_return(st, t)


@api('PyObject_IsTrue')
def is_true(st, o):
    o = check_obj(st, o)
    i = info(st, o)
    if o == T(st, '_Py_TrueStruct'):
        return 1
    if o == T(st, '_Py_FalseStruct') or o == T(st, '_Py_NoneStruct'):
        return 0
    if i[0] == 'long':
        v = i[1]
        return int(st.choose(v != 0 if isinstance(v, int) else v != BitVecVal(0, W)))
    if i[0] in ('list', 'tuple'):
        return int(st.load(o + 16, 8) != 0)
    if i[0] == 'str':
        return int(len(i[1]) > 0)
    if i[0] == 'guest':
        raise Unsupported('truth of an extension object')
    return 1


@api('PyObject_Not')
def obj_not(st, o):
    return 1 - is_true(st, o)


@api('PyObject_Hash')
def obj_hash(st, o):
    raise Unsupported('PyObject_Hash')


@api('PyCallable_Check', nofork=True)
def callable_check(st, o):
    if o == 0:
        return 0
    return int(kind(st, o) in ('callable', 'type'))


def slot_of(st, ty, name):
    while ty:
        v = st.load(ty + TP[name], 8)
        if v:
            return v
        ty = st.load(ty + TP['tp_base'], 8)
    return 0


def is_guest_type(st, f):
    return f in getattr(st.eng, 'guest_types', {}).values() or (
        info(st, f) is None and st.eng.addr_name.get(f) is not None and
        st.load(f + 8, 8) == T(st, 'PyType_Type') and st.load(f + TP['tp_init'], 8) != 0)


def do_call(st, f, args):
    """call a model callable with borrowed args"""
    f = check_obj(st, f, 'callable')
    i = info(st, f)
    if i is None and is_guest_type(st, f):
        for x in args:
            incref(st, x)
        t = new_tuple_raw(st, list(args))
        st.push_host(_typecall_step, {'ty': f, 'args': t, 'ph': 0, 'o': 0})
        return PUSHED
    if i is None or i[0] != 'callable':
        set_err(st, 'TypeError')
        return 0
    n = st.x.get('ncalls', 0)
    r = st.eng.callable_model(st, f, i[1], args, n)
    st.x['ncalls'] = n + 1
    return r


def _typecall_step(st, hf, r):
    v = hf.vars
    if v['ph'] == 0:
        v['ph'] = 1
        st.call(slot_of(st, v['ty'], 'tp_new') or st.eng.native_addr('PyType_GenericNew'), (v['ty'], v['args'], 0))
        return
    if v['ph'] == 1:
        if r == 0:
            v['ret'] = 0
            v['ph'] = 3
            return
        v['o'] = r
        v['ph'] = 2
        st.call(slot_of(st, v['ty'], 'tp_init'), (r, v['args'], 0))
        return
    if v['ph'] == 2:
        if not isinstance(r, int):
            r = st.concretize(r, 4, 'init result')
        v['ret'] = v['o']
        v['ph'] = 3
        if r & 0xffffffff:
            if st.x['err'] is None:
                raise Bug('error-protocol', '__init__ failed without setting an exception')
            v['ret'] = 0
            decref(st, v['o'])
            if st.x.get('dq'):
                st.push_host(_queue_step, {'ret': 0})
        return
    if v['ph'] == 3:
        decref(st, v['args'])
        st.eng.host_return(st, v['ret'])


@api('PyObject_CallObject')
def call_object(st, f, args):
    if args and kind(st, args) != 'tuple':
        set_err(st, 'TypeError')
        return 0
    return do_call(st, f, tuple_items(st, args) if args else [])


@api('PyObject_Call')
def call_obj2(st, f, args, kw=0):
    if kw:
        raise Unsupported('call with keywords')
    return do_call(st, f, tuple_items(st, args) if args else [])


@api('PyObject_CallOneArg', '_PyObject_CallOneArg')
def call_one(st, f, a):
    return do_call(st, f, [a])


@api('PyObject_CallNoArgs', '_PyObject_CallNoArgs')
def call_none(st, f):
    return do_call(st, f, [])


@api('PyObject_CallFunctionObjArgs')
def call_fobj(st, f, *args):
    a = []
    for x in args:
        if x == 0:
            break
        a.append(x)
    return do_call(st, f, a)


@api('PyObject_Vectorcall', '_PyObject_Vectorcall')
def call_vec(st, f, args, nargsf, kw):
    if kw:
        raise Unsupported('vectorcall kwnames')
    n = nargsf & ((1 << 63) - 1)
    return do_call(st, f, [st.load(args + 8 * i, 8) for i in range(n)])


@api('PyObject_GetAttrString', 'PyObject_GetAttr', 'PyObject_CallMethod', 'PyObject_CallMethodObjArgs')
def getattr_(st, *a):
    raise Unsupported('attribute access')


@api('Py_GenericAlias')
def generic_alias(st, a, b):
    if fault(st, 'Py_GenericAlias'):
        return nomem(st)
    return new_obj(st, 'PyBaseObject_Type', 64, 'alias', inf=('alias', a, b))


@api('PyBool_Check', nofork=True)
def bool_check(st, o):
    return 0


# ------------------------------------------------------------------ strings
def new_str(st, content, name='str object'):
    return new_obj(st, 'PyUnicode_Type', 64, name, inf=('str', tuple(content)))


def new_text(st, codes):
    """a string as the interpreter lays it out; codes: character codes (terms for characters below 128)"""
    top = max([c if isinstance(c, int) else 127 for c in codes] + [0])
    w = 1 if top < 256 else 2 if top < 65536 else 4
    ascii_ = top < 128
    data = 40 if ascii_ else 56
    if all(isinstance(c, int) for c in codes):
        inf = tuple(''.join(map(chr, codes)).encode('utf8', 'surrogatepass'))
    else:
        inf = tuple(c if isinstance(c, int) else norm(z3.Extract(7, 0, c)) for c in codes)
    a = new_obj(st, 'PyUnicode_Type', data + w * (len(codes) + 1), 'str object', inf=('str', inf))
    st.store(a + 16, 8, len(codes))
    st.store(a + 24, 8, MINUS1)
    st.store(a + 32, 4, w << 2 | 32 | (64 if ascii_ else 0))
    if not ascii_:
        st.store(a + 40, 8, 0)
        st.store(a + 48, 8, 0)
    for i, c in enumerate(tuple(codes) + (0,)):
        st.store(a + data + w * i, w, c if isinstance(c, int) else inf[i])
    return a


def str_chars(st, o):
    return new_tuple_raw(st, [new_str(st, (b,)) for b in info(st, o)[1]])


@api('PyUnicode_FromString')
def uni_fromstring(st, p):
    out = []
    a = p
    while True:
        b = st.load(a, 1)
        if isinstance(b, int):
            if b == 0:
                break
        else:
            if b.get_id() not in st.eng.digits and st.choose(b == BitVecVal(0, 8)):
                break
        out.append(b)
        a += 1
        if len(out) > 100000:
            raise Unsupported('long string')
    if not valid_utf8(out):
        set_err(st, 'UnicodeDecodeError')
        return 0
    if fault(st, 'PyUnicode_New'):
        return nomem(st)
    return new_str(st, out)


def valid_utf8(bs):
    """bytes that are terms are ASCII characters"""
    try:
        bytes(b if isinstance(b, int) else 97 for b in bs).decode()
        return True
    except UnicodeDecodeError:
        return False


@api('PyUnicode_FromStringAndSize', 'PyUnicode_DecodeUTF8')
def uni_fromsize(st, p, n, *a):
    if not isinstance(n, int):
        n = st.concretize(n, 200, 'string size')
    out = [st.load(p + i, 1) for i in range(n)]
    if not valid_utf8(out):
        set_err(st, 'UnicodeDecodeError')
        return 0
    if fault(st, 'PyUnicode_New'):
        return nomem(st)
    return new_str(st, out)


@api('PyUnicode_FromFormat')
def uni_fromformat(st, fmt, *args):
    f = st.read_cstr(fmt).decode('latin-1')
    out = []
    i = 0
    ai = 0
    seg = ''
    while i < len(f):
        if f[i] == '%' and i + 1 < len(f):
            if f[i + 1] in 'RSU':
                o = args[ai]
                ai += 1
                inf = info(st, o)
                if inf[0] == 'str' and f[i + 1] in 'SU':
                    out += list(inf[1])
                else:
                    raise Unsupported('PyUnicode_FromFormat %R')
                i += 2
                continue
            j = i + 1
            while f[j] in 'lzhjt0123456789':
                j += 1
            out += do_format(st, f[i:j + 1].encode('latin-1'), [args[ai]])
            ai += 1
            i = j + 1
            continue
        out.append(ord(f[i]))
        i += 1
    if fault(st, 'PyUnicode_New'):
        return nomem(st)
    return new_str(st, out)


@api('PyUnicode_AsUTF8')
def uni_asutf8(st, o):
    o = check_obj(st, o)
    i = info(st, o)
    if i[0] != 'str':
        set_err(st, 'TypeError')
        return 0
    if all(isinstance(b, int) for b in i[1]) and not valid_utf8(i[1]):
        set_err(st, 'UnicodeEncodeError')
        return 0
    if fault(st, 'PyUnicode_AsUTF8'):
        return nomem(st)
    key = ('utf8', o)
    a = st.x.get(key)
    if a is None:
        a = st.new_region(len(i[1]) + 1, 'pystr', None, 'utf8 buffer', 16)
        for k, b in enumerate(i[1]):
            st.store(a + k, 1, b)
        st.store(a + len(i[1]), 1, 0)
        st.x[key] = a
    return a


@api('PyUnicode_AsUTF8AndSize')
def uni_asutf8size(st, o, p):
    a = uni_asutf8(st, o)
    if a and p:
        st.store(p, 8, len(info(st, o)[1]))
    return a


@api('PyUnicode_GetLength')
def uni_len(st, o):
    return len(info(st, o)[1])


@api('PyUnicode_Concat')
def uni_concat(st, a, b):
    if fault(st, 'PyUnicode_New'):
        return nomem(st)
    return new_str(st, info(st, a)[1] + info(st, b)[1])


@api('PyUnicode_Append')
def uni_append(st, pp, r):
    l = st.load(pp, 8)
    if l == 0:
        return
    if r == 0:
        st.store(pp, 8, 0)
        decref(st, l)
        return
    if kind(st, check_obj(st, r)) != 'str':
        set_err(st, 'TypeError')
        st.store(pp, 8, 0)
        decref(st, l)
        return
    if fault(st, 'PyUnicode_New'):
        nomem(st)
        st.store(pp, 8, 0)
        decref(st, l)
        return
    n = new_str(st, info(st, l)[1] + info(st, r)[1])
    st.store(pp, 8, n)
    decref(st, l)


@api('PyUnicode_AppendAndDel')
def uni_append_del(st, pp, r):
    uni_append(st, pp, r)
    if r:
        decref(st, r)


@api('PyUnicode_Join')
def uni_join(st, sep, seq):
    items = fast_items(st, seq)
    out = ()
    for k, x in enumerate(items):
        if k:
            out += info(st, sep)[1]
        if kind(st, x) != 'str':
            set_err(st, 'TypeError')
            return 0
        out += info(st, x)[1]
    if fault(st, 'PyUnicode_New'):
        return nomem(st)
    return new_str(st, out)


@api('PyObject_Repr', 'PyObject_Str')
def obj_repr(st, o):
    if o == 0:
        return new_str(st, b'<NULL>')
    o = check_obj(st, o)
    i = info(st, o)
    k = i[0]
    if k == 'guest':
        return tail(st, slot(st, o, 'tp_repr'), (o,))
    if k == 'obj':
        if i[4] is not None and st.choose(i[4]):
            set_err(st, 'UserError')
            return 0
        s = ('<%s>' % i[1]).encode()
    elif k == 'long':
        from .libc import fmt_int
        v = i[1]
        s = str(v).encode() if isinstance(v, int) else fmt_int(st, v, W, True)
    elif k == 'singleton':
        s = {'_Py_TrueStruct': b'True', '_Py_FalseStruct': b'False'}.get(i[1], b'None')
    elif k == 'str':
        s = b"'" + bytes(i[1]) + b"'"
    else:
        raise Unsupported('repr of ' + k)
    if fault(st, 'PyUnicode_New'):
        return nomem(st)
    return new_str(st, s)


@api('PyUnicode_CompareWithASCIIString')
def uni_cmp(st, o, p):
    return 0 if bytes(info(st, o)[1]) == st.read_cstr(p) else 1


@api('PyBytes_FromStringAndSize')
def bytes_from(st, p, n):
    if not isinstance(n, int):
        if st.choose(n > BitVecVal(4096, 64)):
            raise Unsupported('large bytes')
        n = st.concretize(n, 64, 'bytes size')
    n = sext_int(n & M64, 64)
    if n < 0:
        set_err(st, 'SystemError')
        return 0
    if fault(st, 'PyBytes_New'):
        return nomem(st)
    if n > 1 << 20:
        return nomem(st)
    a = new_obj(st, 'PyBytes_Type', 33 + n, 'bytes object', inf=('bytes', n))
    st.store(a + 16, 8, n)
    st.store(a + 24, 8, M64)
    if p:
        st.memcpy(a + 32, p, n)
    st.store(a + 32 + n, 1, 0)
    return a


def new_bytes(st, content):
    n = len(content)
    a = new_obj(st, 'PyBytes_Type', 33 + n, 'bytes object', inf=('bytes', n))
    st.store(a + 16, 8, n)
    st.store(a + 24, 8, M64)
    for i, b in enumerate(content):
        st.store(a + 32 + i, 1, b)
    st.store(a + 32 + n, 1, 0)
    return a


@api('PyBytes_FromString')
def bytes_fromstr(st, p):
    s = st.read_cstr(p)
    if fault(st, 'PyBytes_New'):
        return nomem(st)
    return new_bytes(st, s)


@api('PyBytes_Size')
def bytes_size(st, o):
    if kind(st, check_obj(st, o)) != 'bytes':
        set_err(st, 'TypeError')
        return MINUS1
    return st.load(o + 16, 8)


@api('PyBytes_AsString', 'PyBytes_AS_STRING')
def bytes_asstring(st, o):
    if kind(st, check_obj(st, o)) != 'bytes':
        set_err(st, 'TypeError')
        return 0
    return o + 32


@api('PyBytes_AsStringAndSize')
def bytes_asstringsize(st, o, ps, pn):
    if kind(st, check_obj(st, o)) != 'bytes':
        set_err(st, 'TypeError')
        return 0xffffffff
    st.store(ps, 8, o + 32)
    if pn:
        st.store(pn, 8, st.load(o + 16, 8))
    return 0


# ------------------------------------------------------------------ argument parsing
def parse_fmt(fmt):
    """-> (list of (code, optional, kwonly))"""
    out = []
    opt = False
    kwo = False
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c == '|':
            opt = True
        elif c == '$':
            kwo = True
        elif c in ':;':
            break
        else:
            if i + 1 < len(fmt) and fmt[i + 1] in '!#*&':
                c += fmt[i + 1]
                i += 1
            out.append((c, opt, kwo))
        i += 1
    return out


RANGES = {'b': (0, 255, 1), 'h': (-(1 << 15), (1 << 15) - 1, 2), 'i': (-(1 << 31), (1 << 31) - 1, 4),
          'l': (I64MIN, I64MAX, 8), 'L': (I64MIN, I64MAX, 8), 'n': (I64MIN, I64MAX, 8)}
MASKS = {'B': 1, 'H': 2, 'I': 4, 'k': 8, 'K': 8}


def parse_one(st, code, o, ptrs):
    """store a converted argument; True on success"""
    if code == 'O':
        st.store(ptrs.pop(0), 8, o)
        return True
    if code == 'O!':
        ty = ptrs.pop(0)
        p = ptrs.pop(0)
        if not is_subtype(st, st.load(o + 8, 8), ty):
            set_err(st, 'TypeError')
            return False
        st.store(p, 8, o)
        return True
    if code in RANGES:
        p = ptrs.pop(0)
        lo, hi, n = RANGES[code]
        v = index_value(st, o)
        if v is None:
            return False
        v = conv(st, v, lo, hi)
        if v is None:
            return False
        st.store(p, n, low(v, 8 * n))
        return True
    if code in MASKS:
        p = ptrs.pop(0)
        v = index_value(st, o)
        if v is None:
            return False
        st.store(p, MASKS[code], low(v, 8 * MASKS[code]))
        return True
    if code == 'p':
        st.store(ptrs.pop(0), 4, is_true(st, o))
        return True
    if code == 'd':
        p = ptrs.pop(0)
        if kind(st, o) != 'float':
            set_err(st, 'TypeError')
            return False
        st.store(p, 8, st.load(o + 16, 8))
        return True
    if code in ('s', 'z'):
        p = ptrs.pop(0)
        if code == 'z' and o == T(st, '_Py_NoneStruct'):
            st.store(p, 8, 0)
            return True
        a = uni_asutf8(st, o)
        if not a:
            return False
        st.store(p, 8, a)
        return True
    raise Unsupported('PyArg format ' + code)


@api('PyArg_ParseTuple', '_PyArg_ParseTuple_SizeT')
def arg_parse(st, args, fmt, *ptrs):
    f = parse_fmt(st.read_cstr(fmt).decode())
    items = tuple_items(st, args)
    req = sum(1 for c, o, k in f if not o)
    if len(items) < req or len(items) > len(f):
        set_err(st, 'TypeError')
        return 0
    ptrs = list(ptrs)
    for (c, o, k), x in zip(f, items):
        if not parse_one(st, c, x, ptrs):
            return 0
    return 1


@api('PyArg_Parse')
def arg_parse1(st, o, fmt, *ptrs):
    f = parse_fmt(st.read_cstr(fmt).decode())
    return int(parse_one(st, f[0][0], o, list(ptrs)))


@api('PyArg_UnpackTuple')
def arg_unpack(st, args, name, mn, mx, *ptrs):
    items = tuple_items(st, args)
    if len(items) < mn or len(items) > mx:
        set_err(st, 'TypeError')
        return 0
    for p, x in zip(ptrs, items):
        st.store(p, 8, x)
    return 1


@api('PyArg_ParseTupleAndKeywords', '_PyArg_ParseTupleAndKeywords_SizeT')
def arg_parse_kw(st, args, kw, fmt, kwlist, *ptrs):
    f = parse_fmt(st.read_cstr(fmt).decode())
    names = []
    a = kwlist
    while True:
        p = st.load(a, 8)
        if p == 0:
            break
        names.append(st.read_cstr(p).decode())
        a += 8
    items = tuple_items(st, args)
    kws = dict(info(st, kw)[1]) if kw else {}
    if len(items) + len(kws) > len(f):
        set_err(st, 'TypeError')
        return 0
    ptrs = list(ptrs)
    used = set()
    for i, (c, opt, kwo) in enumerate(f):
        nm = names[i]
        if i < len(items):
            if nm in kws:
                set_err(st, 'TypeError')
                return 0
            x = items[i]
        elif nm in kws:
            x = kws[nm]
            used.add(nm)
        else:
            if not opt:
                set_err(st, 'TypeError')
                return 0
            ptrs.pop(0)
            if c == 'O!':
                ptrs.pop(0)
            continue
        if not parse_one(st, c, x, ptrs):
            return 0
    if set(kws) - used:
        set_err(st, 'TypeError')
        return 0
    return 1


@api('Py_BuildValue', '_Py_BuildValue_SizeT')
def build_value(st, fmt, *args):
    f = st.read_cstr(fmt).decode()
    args = list(args)

    def one(c):
        a = args.pop(0)
        if c in 'nlL':
            return new_long(st, from64(a))
        if c in 'kK':
            return new_long(st, from64(a, False))
        if c == 'i':
            return new_long(st, sext_int(a & 0xffffffff, 32) if isinstance(a, int) else SignExt(W - 32, a))
        if c == 'O':
            incref(st, a)
            return a
        if c == 'N':
            return a
        if c == 's':
            return new_str(st, st.read_cstr(a))
        raise Unsupported('Py_BuildValue ' + c)
    if fault(st, 'Py_BuildValue'):
        return nomem(st)
    if f.startswith('('):
        return new_tuple_raw(st, [one(c) for c in f.strip('()') if c not in ', '])
    if len(f) == 1:
        return one(f)
    if f == '':
        return T(st, '_Py_NoneStruct')
    return new_tuple_raw(st, [one(c) for c in f if c not in ', '])


# ------------------------------------------------------------------ dict (kwargs only)
def new_dict(st, pairs):
    return new_obj(st, 'PyDict_Type', 48, 'dict object', inf=('dict', tuple(pairs)))


@api('PyDict_Size')
def dict_size(st, o):
    return len(info(st, o)[1])


@api('PyDict_GetItemString')
def dict_getitems(st, o, k):
    return dict(info(st, o)[1]).get(st.read_cstr(k).decode(), 0)


@api('PyBuffer_FillInfo')
def buffer_fillinfo(st, view, obj, buf, ln, ro, flags):
    incref(st, obj)
    st.store(view, 8, buf)
    st.store(view + 8, 8, obj)
    st.store(view + 16, 8, ln)
    st.store(view + 24, 8, 1)
    st.store(view + 32, 4, ro)
    st.store(view + 36, 4, 1)
    st.store(view + 40, 8, 0)
    st.store(view + 48, 8, view + 16)
    st.store(view + 56, 8, view + 24)
    st.store(view + 64, 8, 0)
    st.store(view + 72, 8, 0)
    return 0


@api('PyBuffer_Release')
def buffer_release(st, view):
    o = st.load(view + 8, 8)
    if o:
        st.store(view + 8, 8, 0)
        decref(st, o)
    return run_queue(st)
