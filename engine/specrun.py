"""Runs one step of a history on the reference model (shared by the symbolic driver and the replay runner)."""
from .spec import Undefined, SpecErr, NONE
from .memspec import Mem

ARITY = {'append': (1, 1), 'extend': (1, 1), 'pop': (0, 1), 'insert': (2, 2), 'remove': (1, 1), 'index': (1, 3), 'count': (1, 1),
         'clear': (0, 0), 'reverse': (0, 0), 'copy': (0, 0), 'to_list': (0, 0), 'resize': (1, 1), '__rmul__': (1, 1),
         '__reversed__': (0, 0)}


def run_spec(sp, va, senv, s):
    op = s['op']
    if op == 'new' and s['type'] in ('Unsafe', 'SIMD', 'ASM', 'SIMDLowAVX512'):
        return sp.new(('U', s['type']))
    if op == 'call' and senv[s['obj']][0] == 'ref' and sp.heap[senv[s['obj']][1]][0] == 'U':
        if s['name'] == '__enter__':
            return senv[s['obj']]
        if s['name'] == '__exit__':
            return NONE
        sp.senv = senv
        return Mem(sp).call(sp.heap[senv[s['obj']][1]][1], s['name'], [va(a) for a in s.get('args', ())])
    if op == 'new':
        if s.get('sub') == 'raw':
            return sp.op_new(s['type'], [], None)
        return sp.op_new(s['type'], [va(a) for a in s.get('args', ())], s.get('kw'))
    if op == 'callstatic':
        return getattr(sp, 'st_' + s['name'])(s['type'], *[va(a) for a in s.get('args', ())])
    o = senv[s['obj']]
    if op == 'call':
        m = s['name']
        lo, hi = ARITY.get(m, (0, 9))
        if not lo <= len(s.get('args', ())) <= hi:
            raise SpecErr('TypeError', *(('IndexError',) if m == 'pop' else ()))
        if m == 'sort':
            if s.get('args'):
                raise Undefined()
            kw = s.get('kw') or {}
            return sp.op_sort_kw(o, {k: va(v) for k, v in kw.items()}, senv)
        if m == '__rmul__':
            m = 'mul'
        return getattr(sp, 'op_' + m)(o, *[va(a) for a in s.get('args', ())])
    if op in ('len', 'iter', 'reversed', 'next', 'tolist', 'repr', 'str'):
        return getattr(sp, 'op_' + op)(o)
    if op == 'getitem':
        return sp.op_getitem(o, va(s['key']))
    if op == 'setitem':
        return sp.op_setitem(o, va(s['key']), va(s['val']))
    if op == 'delitem':
        return sp.op_delitem(o, va(s['key']))
    if op == 'cmp':
        return sp.op_cmp(o, va(s['val']), s['cmp'])
    if op == 'reinit':
        raise Undefined()
    return getattr(sp, 'op_' + op)(o, va(s['val']))


READS = ('len', 'getitem', 'cmp', 'contains', 'iter', 'reversed', 'repr', 'str', 'tolist', 'obs', 'add', 'mul', 'next',
         'let', 'assume', 'faults', 'view', 'vget', 'vcheck', 'vrel')
READ_METHODS = ('copy', 'to_list', 'index', 'count', '__rmul__')


def mutates(s):
    """may the step change the list it is applied to"""
    if s['op'] == 'call':
        return s['name'] not in READ_METHODS
    return s['op'] not in READS


def names_in(x):
    """names of inputs/objects a step refers to"""
    if isinstance(x, dict):
        out = [x['obj']] if 'obj' in x else []
        for k in ('args', 'key', 'val', 'kw'):
            if k in x:
                out += names_in(x[k] if not isinstance(x[k], dict) else list(x[k].values()))
        return out
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == 'v':
            return [x[1]]
        out = []
        for y in x:
            if isinstance(y, (list, tuple)):
                out += names_in(y)
        return out
    return []


def on_raise(s):
    """what the list holds after user code raised during the step: None unchanged, 'P' a permutation, '?' anything"""
    n = s.get('name')
    if n == 'sort':
        return 'P'
    if n == 'extend' or s['op'] in ('iadd', 'reinit'):
        return '?'
    return None
