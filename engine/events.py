"""Callbacks into Python code: what user objects, iterables and callables do while the extension is calling them.

A scenario lists events {'on': key, 'at': n, 'do': 'raise' | [steps]}: at the n-th callback of that key the callback
raises, or first runs the given list operations (re-entering the extension) and then answers normally."""
from .core import PUSHED
from . import cpy
from .cpy import kind, info, set_err, incref, new_long, T
from .core import Unsupported


def fire(st, key):
    """-> None | 'raise' | steps"""
    evs = st.x.get('events')
    if not evs:
        return None
    for i, ev in enumerate(evs):
        if ev['on'] != key:
            continue
        d = st.x.get('evn', {})
        n = d.get(i, 0)
        d = dict(d)
        d[i] = n + 1
        st.x['evn'] = d
        if ev['at'] == '*' or n == ev['at']:
            return picked(st, ev['do'])
    return None


def picked(st, do):
    """one of several alternatives, chosen by an input"""
    if not isinstance(do, dict):
        return do
    x = st.eng.driver.ctx.bv[do['pick']]
    for i, steps in enumerate(do['of'][:-1]):
        if st.choose(x == i):
            return steps
    return do['of'][-1]


def hook(eng, names, key, err, cond):
    for n in names:
        f = eng.natives.get(n)
        if f is None:
            continue

        def g(st, *a, _f=f):
            if not st.x.get('events') or not cond(st, a):
                return _f(st, *a)
            do = fire(st, key)
            if do is None:
                return _f(st, *a)
            if do == 'raise':
                st.x['raised'] = st.x.get('raised', 0) + 1
                set_err(st, 'UserError')
                return err
            return nested(st, do, _f, a)
        eng.natives[n] = g


def nested(st, steps, f, a):
    return st.push_host(_event_step, {'ph': 0, 'steps_': steps, 'f': f, 'a': a})


def _event_step(st, hf, ret):
    v = hf.vars
    if v['ph'] == 0:
        v['ph'] = 1
        st.x['reentered'] = True
        st.eng.driver.push_nested(st, v['steps_'])
        return
    if v['ph'] == 1:
        v['ph'] = 2
        if v['f'] is None:
            st.eng.host_return(st, v['a'])
            return
        r = v['f'](st, *v['a'])
        if r is not PUSHED:
            hf.pend = (r,)
        return
    st.eng.host_return(st, ret)


def thread_hook(eng, name, key):
    """another thread runs list operations while the lock is released"""
    f = eng.natives[name]

    def g(st, *a):
        had = st.x['gil']
        r = f(st, *a)
        if not st.x.get('events') or st.x['gil'] == had or key != ('restore' if st.x['gil'] else 'release'):
            return r
        do = fire(st, key)
        if not isinstance(do, (list, tuple)):
            return r
        return st.push_host(_thread_step, {'ph': 0, 'do': do, 'ret': r or 0, 'gil': st.x['gil'], 'err': st.x['err']})
    eng.natives[name] = g


def _thread_step(st, hf, ret):
    v = hf.vars
    if v['ph'] == 0:
        v['ph'] = 1
        st.x['gil'], st.x['err'] = True, None
        st.x['reentered'] = True
        st.eng.driver.push_nested(st, v['do'])
        return
    st.x['gil'], st.x['err'] = v['gil'], v['err']
    st.eng.host_return(st, v['ret'])


def is_user(st, o):
    i = info(st, o) if isinstance(o, int) and o else None
    return i is not None and i[0] == 'obj'


def install(eng):
    N = 0xffffffffffffffff
    hook(eng, ['PyObject_RichCompare', 'model_tp_richcompare'], 'cmp', 0,
         lambda st, a: is_user(st, a[0]) or is_user(st, a[1]))
    hook(eng, ['PyObject_RichCompareBool'], 'cmp', 0xffffffff,
         lambda st, a: a[0] != a[1] and (is_user(st, a[0]) or is_user(st, a[1])))
    hook(eng, ['PyIter_Next', 'model_iternext'], 'next', 0, lambda st, a: user_iter(st, a[0]))
    hook(eng, ['PyObject_GetIter'], 'iter', 0, lambda st, a: kind(st, a[0]) in ('iterable', 'seq'))
    hook(eng, ['PyObject_LengthHint'], 'hint', N, lambda st, a: kind(st, a[0]) in ('iterable', 'seq'))
    hook(eng, ['PyObject_Size', 'PyObject_Length', 'PySequence_Size', 'PySequence_Length'], 'len', N,
         lambda st, a: kind(st, a[0]) in ('seq',))
    hook(eng, ['PySequence_GetItem', 'PySequence_ITEM'], 'item', 0, lambda st, a: kind(st, a[0]) in ('seq',))
    hook(eng, ['PyObject_Repr', 'PyObject_Str'], 'repr', 0, lambda st, a: is_user(st, a[0]))
    for n, key in (('PyEval_SaveThread', 'release'), ('PyGILState_Release', 'release'), ('PyEval_RestoreThread', 'restore'),
                   ('PyGILState_Ensure', 'restore')):
        thread_hook(eng, n, key)
    eng.callable_model = callable_model
    eng.wants_del = wants_del
    eng.run_del = run_del


def user_iter(st, o):
    i = info(st, o) if o else None
    return i is not None and i[0] == 'iter' and kind(st, i[1]) in ('iterable', 'seq')


def callable_model(st, f, beh, args, n):
    """result (new reference) of calling a model callable"""
    do = fire(st, 'call') if not st.x.get('in_call') else None
    if do == 'raise':
        st.x['raised'] = st.x.get('raised', 0) + 1
        set_err(st, 'UserError')
        return 0
    if do is not None:
        return nested(st, do, lambda s, *a: answer(s, beh, a), tuple(args))
    return answer(st, beh, args)


def answer(st, beh, args):
    k = beh['key']
    if len(args) != 1:
        set_err(st, 'TypeError')
        return 0
    o = args[0]
    i = info(st, o)
    if k == 'ident':
        incref(st, o)
        return o
    if k == 'none':
        return T(st, '_Py_NoneStruct')
    if k == 'const':
        return new_long(st, 7)
    if k in ('neg', 'half'):
        if i[0] != 'long':
            set_err(st, 'TypeError')
            return 0
        x = i[1]
        return new_long(st, (-x if k == 'neg' else x >> 1))
    if k in ('pair', 'dbl', 'text'):
        if i[0] != 'long':
            set_err(st, 'TypeError')
            return 0
        x = i[1]
        if k == 'pair':
            return cpy.new_tuple_raw(st, [new_long(st, x >> 1), new_long(st, -x)])
        if isinstance(x, int):
            import struct
            return cpy.new_float(st, struct.unpack('<Q', struct.pack('<d', -x / 2))[0]) if k == 'dbl' else cpy.new_text(st, tuple(str(x).encode()))
        raise Unsupported('key of a free value')
    if k == 'table':
        if i[0] != 'obj':
            set_err(st, 'TypeError')
            return 0
        env = st.frames[0].vars['env']
        r = env[beh['pre'] + i[1]]
        incref(st, r)
        return r
    raise Unsupported('callable behaviour ' + k)


def wants_del(st, o):
    n = info(st, o)[1]
    return n not in st.x.get('deldone', ()) and any(e['on'] == 'del:' + n for e in st.x['events'])


def run_del(st, o):
    n = info(st, o)[1]
    st.x['deldone'] = st.x.get('deldone', ()) + (n,)
    do = fire(st, 'del:' + n)
    st.push_host(_del_step, {'ph': 0, 'o': o, 'do': do if isinstance(do, (list, tuple)) else (), 'err': st.x['err']})


def _del_step(st, hf, ret):
    v = hf.vars
    if v['ph'] == 0:
        v['ph'] = 1
        st.x['err'] = None
        st.eng.driver.push_nested(st, v['do'])
        return
    if v['ph'] == 1:
        v['ph'] = 2
        st.x['err'] = v['err']
        cpy.decref(st, v['o'])
    st.eng.host_return(st, 0)
