"""Scenario generators: families of python level histories on symbolic values."""
from .spec import I32, I64, INTLISTS

INTS = ('IntArrayList', 'BigIntArrayList', 'IntLinkedList')
OBJS = ('ObjectArrayList', 'ObjectLinkedList')
ALL = INTS + OBJS
ANYINT = (-(1 << 70), 1 << 70)
IDX = (-(1 << 66), 1 << 66)


def V(n):
    return ('v', n)


def rng(ty):
    return INTLISTS.get(ty)


def elems(ty, n, pre='x'):
    """inputs for n elements of a list of type ty"""
    if ty in INTLISTS:
        return {'%s%d' % (pre, i): ('int',) + rng(ty) for i in range(n)}
    return {'%s%d' % (pre, i): ('obj',) for i in range(n)}


def new_list(ty, n, dst='a', pre='x', how='list'):
    """steps building a list of n elements"""
    vs = [V('%s%d' % (pre, i)) for i in range(n)]
    if how == 'list':
        return [{'op': 'new', 'dst': dst, 'type': ty, 'args': [('list', vs)] if n else []}]
    if how == 'append':
        return ([{'op': 'new', 'dst': dst, 'type': ty, 'args': []}] +
                [{'op': 'call', 'obj': dst, 'name': 'append', 'args': [v]} for v in vs])
    if how == 'pop':
        # one element more than needed, popped again: spare capacity, and for linked lists a used cache
        return ([{'op': 'new', 'dst': dst, 'type': ty, 'args': [('list', vs + [vs[0] if vs else zero(ty)])]}] +
                [{'op': 'call', 'obj': dst, 'name': 'pop', 'args': []}])
    raise ValueError(how)


def zero(ty):
    return ('int', 0) if ty in INTLISTS else ('none',)


def sc(name, inputs, steps, **kw):
    d = {'name': name, 'inputs': inputs, 'steps': steps}
    d.update(kw)
    return d


def obs(*names):
    return [{'op': 'obs', 'obj': n} for n in names]


def newval(ty, name='y'):
    return {name: (('int',) + rng(ty)) if ty in INTLISTS else ('obj',)}


# ------------------------------------------------------------------ families
def reads(ty, N):
    for n in N:
        for how in ('list', 'pop'):
            yield sc('%s/getitem/n%d/%s' % (ty, n, how), {**elems(ty, n), 'k': ('int',) + IDX},
                     new_list(ty, n, how=how) + [{'op': 'getitem', 'obj': 'a', 'key': V('k')},
                                                 {'op': 'getitem', 'obj': 'a', 'key': V('k')}] + obs('a'))
        yield sc('%s/getitem-index/n%d' % (ty, n), {**elems(ty, n), 'k': ('int',) + IDX},
                 new_list(ty, n) + [{'op': 'getitem', 'obj': 'a', 'key': ('index', V('k'))}])
        yield sc('%s/getitem-badkey/n%d' % (ty, n), {**elems(ty, n)},
                 new_list(ty, n) + [{'op': 'getitem', 'obj': 'a', 'key': ('str', 'x')},
                                    {'op': 'getitem', 'obj': 'a', 'key': ('none',)}])
        yield sc('%s/to_list/n%d' % (ty, n), elems(ty, n),
                 new_list(ty, n) + [{'op': 'call', 'obj': 'a', 'name': 'to_list', 'args': []},
                                    {'op': 'tolist', 'obj': 'a'}, {'op': 'len', 'obj': 'a'},
                                    {'op': 'call', 'obj': 'a', 'name': 'copy', 'args': [], 'dst': 'b'}] + obs('b', 'a'))


def slices_get(ty, N, steps=((('none',)), 'c')):
    for n in N:
        for sa in ('none', 'v'):
            for sb in ('none', 'v'):
                for sc_ in ('none', 'v'):
                    inp = dict(elems(ty, n))
                    if sa == 'v':
                        inp['i'] = ('int',) + IDX
                    if sb == 'v':
                        inp['j'] = ('int',) + IDX
                    if sc_ == 'v':
                        inp['k'] = ('int',) + IDX
                    key = ('slice', V('i') if sa == 'v' else ('none',), V('j') if sb == 'v' else ('none',),
                           V('k') if sc_ == 'v' else ('none',))
                    yield sc('%s/getslice/n%d/%s%s%s' % (ty, n, sa[0], sb[0], sc_[0]), inp,
                             new_list(ty, n) + [{'op': 'getitem', 'obj': 'a', 'key': key}])


def setitem(ty, N):
    for n in N:
        yield sc('%s/setitem/n%d' % (ty, n), {**elems(ty, n), 'k': ('int',) + IDX, **newval(ty)},
                 new_list(ty, n) + [{'op': 'setitem', 'obj': 'a', 'key': V('k'), 'val': V('y')}] + obs('a'))
        yield sc('%s/delitem/n%d' % (ty, n), {**elems(ty, n), 'k': ('int',) + IDX},
                 new_list(ty, n) + [{'op': 'delitem', 'obj': 'a', 'key': V('k')}] + obs('a'))
        if ty in INTLISTS:
            yield sc('%s/setitem-bad/n%d' % (ty, n), {**elems(ty, n), 'k': ('int',) + IDX},
                     new_list(ty, n) + [{'op': 'setitem', 'obj': 'a', 'key': V('k'), 'val': ('str', 'q')}] + obs('a'))


def setslice(ty, N, M=(0, 1, 2, 3), full=False):
    for n in N:
        for m in M:
            for kind in ('list', 'tuple', 'same', 'seq') if full or n == N[-1] else ('list',):
                inp = {**elems(ty, n), 'i': ('int',) + IDX, 'j': ('int',) + IDX, **elems(ty, m, 'y')}
                vs = [V('y%d' % i) for i in range(m)]
                pre = []
                if kind == 'same':
                    pre = new_list(ty, m, 'b', 'y')
                    val = V('b')
                elif kind == 'seq':
                    val = ('seq', vs, {})
                else:
                    val = (kind, vs)
                yield sc('%s/setslice/n%d/m%d/%s' % (ty, n, m, kind), inp,
                         new_list(ty, n) + pre +
                         [{'op': 'setitem', 'obj': 'a', 'key': ('slice', V('i'), V('j'), ('none',)), 'val': val}] +
                         obs('a') + (obs('b') if pre else []))
        yield sc('%s/setslice-self/n%d' % (ty, n), {**elems(ty, n), 'i': ('int',) + IDX, 'j': ('int',) + IDX},
                 new_list(ty, n) + [{'op': 'setitem', 'obj': 'a', 'key': ('slice', V('i'), V('j'), ('none',)),
                                     'val': V('a')}] + obs('a'))
        yield sc('%s/delslice/n%d' % (ty, n), {**elems(ty, n), 'i': ('int',) + IDX, 'j': ('int',) + IDX},
                 new_list(ty, n) + [{'op': 'delitem', 'obj': 'a', 'key': ('slice', V('i'), V('j'), ('none',))}] +
                 obs('a'))
        for val in (('int', 5), ('none',)):
            yield sc('%s/setslice-bad/n%d/%s' % (ty, n, val[0]), {**elems(ty, n), 'i': ('int',) + IDX},
                     new_list(ty, n) + [{'op': 'setitem', 'obj': 'a', 'key': ('slice', V('i'), ('none',), ('none',)),
                                         'val': val}] + obs('a'))
        if ty in INTLISTS:
            yield sc('%s/setslice-badelem/n%d' % (ty, n), {**elems(ty, n), **elems(ty, 1, 'y'), 'i': ('int', -4, 4)},
                     new_list(ty, n) + [{'op': 'setitem', 'obj': 'a', 'key': ('slice', V('i'), ('none',), ('none',)),
                                         'val': ('list', [V('y0'), ('str', 'q')])}] + obs('a'))
        yield sc('%s/setslice-step/n%d' % (ty, n), {**elems(ty, n), 'k': ('int',) + IDX, **elems(ty, 1, 'y')},
                 new_list(ty, n) + [{'op': 'setitem', 'obj': 'a', 'key': ('slice', ('none',), ('none',), V('k')),
                                     'val': ('list', [V('y0')] * n)}] + obs('a'))


def mutators(ty, N):
    for n in N:
        e = elems(ty, n)
        y = newval(ty)
        base = new_list(ty, n)
        yield sc('%s/append/n%d' % (ty, n), {**e, **y}, base + [{'op': 'call', 'obj': 'a', 'name': 'append',
                                                                 'args': [V('y')]}] * 2 + obs('a'))
        yield sc('%s/insert/n%d' % (ty, n), {**e, **y, 'k': ('int',) + IDX},
                 base + [{'op': 'call', 'obj': 'a', 'name': 'insert', 'args': [V('k'), V('y')]}] + obs('a'))
        yield sc('%s/insert2/n%d' % (ty, n), {**e, **y, 'k': ('int', -3, 4)},
                 new_list(ty, n, how='pop') + [{'op': 'call', 'obj': 'a', 'name': 'insert', 'args': [V('k'), V('y')]}] + obs('a') +
                 [{'op': 'call', 'obj': 'a', 'name': 'append', 'args': [V('y')]}] + obs('a'))
        yield sc('%s/pop/n%d' % (ty, n), e, base + [{'op': 'call', 'obj': 'a', 'name': 'pop', 'args': []}] + obs('a') +
                 [{'op': 'call', 'obj': 'a', 'name': 'pop', 'args': []}] + obs('a'))
        yield sc('%s/popi/n%d' % (ty, n), {**e, 'k': ('int',) + IDX},
                 base + [{'op': 'call', 'obj': 'a', 'name': 'pop', 'args': [V('k')]}] + obs('a'))
        yield sc('%s/popi2/n%d' % (ty, n), {**e, 'k': ('int', -4, 3), 'l': ('int', -4, 3)},
                 base + [{'op': 'getitem', 'obj': 'a', 'key': V('l')},
                         {'op': 'call', 'obj': 'a', 'name': 'pop', 'args': [V('k')]}] + obs('a') +
                 [{'op': 'getitem', 'obj': 'a', 'key': V('l')},
                  {'op': 'call', 'obj': 'a', 'name': 'insert', 'args': [V('l'), zero(ty)]}] + obs('a'))
        yield sc('%s/popbad/n%d' % (ty, n), e, base + [{'op': 'call', 'obj': 'a', 'name': 'pop', 'args': [('str', 'x')]}] +
                 obs('a'))
        if ty in INTLISTS:
            wide = {'y': ('int',) + ANYINT}
        else:
            wide = y
        yield sc('%s/remove/n%d' % (ty, n), {**e, **wide}, base + [{'op': 'call', 'obj': 'a', 'name': 'remove',
                                                                   'args': [V('y')]}] + obs('a'))
        yield sc('%s/clear/n%d' % (ty, n), {**e, **y}, base + [{'op': 'call', 'obj': 'a', 'name': 'clear', 'args': []}] +
                 obs('a') + [{'op': 'call', 'obj': 'a', 'name': 'append', 'args': [V('y')]}] + obs('a'))
        yield sc('%s/reverse/n%d' % (ty, n), e, base + [{'op': 'call', 'obj': 'a', 'name': 'reverse', 'args': []}] +
                 obs('a') + [{'op': 'call', 'obj': 'a', 'name': 'reverse', 'args': []}] + obs('a'))
        for m in (0, 2):
            vs = [V('z%d' % i) for i in range(m)]
            for kind, val in (('list', ('list', vs)), ('tuple', ('tuple', vs)), ('iter', ('iterable', vs, {})),
                              ('raise', ('iterable', vs, {'end': 'raise'})),
                              ('noiter', ('iterable', vs, {'iter_raises': True})),
                              ('hint', ('iterable', vs, {'hint': 5}))):
                for op in ('extend', 'iadd'):
                    step = ({'op': 'call', 'obj': 'a', 'name': 'extend', 'args': [val]} if op == 'extend' else
                            {'op': 'iadd', 'obj': 'a', 'val': val, 'dst': 'a2'})
                    yield sc('%s/%s-%s/n%d/m%d' % (ty, op, kind, n, m), {**e, **elems(ty, m, 'z')},
                             base + [step] + obs('a'))
            yield sc('%s/extend-same/n%d/m%d' % (ty, n, m), {**e, **elems(ty, m, 'z')},
                     base + new_list(ty, m, 'b', 'z') +
                     [{'op': 'call', 'obj': 'a', 'name': 'extend', 'args': [V('b')]}] + obs('a', 'b'))
            yield sc('%s/iadd-same/n%d/m%d' % (ty, n, m), {**e, **elems(ty, m, 'z')},
                     base + new_list(ty, m, 'b', 'z') +
                     [{'op': 'iadd', 'obj': 'a', 'val': V('b'), 'dst': 'a2'}] + obs('a', 'b'))
        yield sc('%s/extend-self/n%d' % (ty, n), e, base + [{'op': 'call', 'obj': 'a', 'name': 'extend', 'args': [V('a')]}] +
                 obs('a'))
        yield sc('%s/iadd-self/n%d' % (ty, n), e, base + [{'op': 'iadd', 'obj': 'a', 'val': V('a'), 'dst': 'a2'}] +
                 obs('a'))
        if ty in INTLISTS:
            for nm, st in (('append', {'op': 'call', 'obj': 'a', 'name': 'append', 'args': [('str', 'q')]}),
                           ('insert', {'op': 'call', 'obj': 'a', 'name': 'insert', 'args': [('int', 0), ('str', 'q')]}),
                           ('extend', {'op': 'call', 'obj': 'a', 'name': 'extend', 'args': [('list', [('int', 7), ('str', 'q'), ('int', 8)])]}),
                           ('iadd', {'op': 'iadd', 'obj': 'a', 'val': ('list', [('int', 7), ('none',)])}),
                           ('remove', {'op': 'call', 'obj': 'a', 'name': 'remove', 'args': [('str', 'q')]}),
                           ('extendx', {'op': 'call', 'obj': 'a', 'name': 'extend', 'args': [('int', 7)]})):
                yield sc('%s/bad-%s/n%d' % (ty, nm, n), e, base + [st] + obs('a'))


def search(ty, N):
    for n in N:
        e = elems(ty, n)
        y = {'y': ('int',) + ANYINT} if ty in INTLISTS else newval(ty)
        base = new_list(ty, n)
        yield sc('%s/contains/n%d' % (ty, n), {**e, **y}, base + [{'op': 'contains', 'obj': 'a', 'val': V('y')}])
        yield sc('%s/count/n%d' % (ty, n), {**e, **y}, base + [{'op': 'call', 'obj': 'a', 'name': 'count', 'args': [V('y')]}])
        yield sc('%s/index/n%d' % (ty, n), {**e, **y}, base + [{'op': 'call', 'obj': 'a', 'name': 'index', 'args': [V('y')]}])
        yield sc('%s/index1/n%d' % (ty, n), {**e, **y, 'i': ('int',) + IDX},
                 base + [{'op': 'call', 'obj': 'a', 'name': 'index', 'args': [V('y'), V('i')]}])
        yield sc('%s/index2/n%d' % (ty, n), {**e, **y, 'i': ('int',) + IDX, 'j': ('int',) + IDX},
                 base + [{'op': 'call', 'obj': 'a', 'name': 'index', 'args': [V('y'), V('i'), V('j')]}])
        for nm, val in (('str', ('str', 'q')), ('none', ('none',)), ('bool', ('bool', True))):
            yield sc('%s/search-%s/n%d' % (ty, nm, n), e,
                     base + [{'op': 'contains', 'obj': 'a', 'val': val},
                             {'op': 'call', 'obj': 'a', 'name': 'count', 'args': [val]},
                             {'op': 'call', 'obj': 'a', 'name': 'index', 'args': [val]}] + obs('a'))


def compare(ty, N):
    for n in N:
        for m in range(max(0, n - 1), n + 2):
            for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
                inp = {**elems(ty, n), **elems(ty, m, 'z')}
                yield sc('%s/cmp-%s-same/n%d/m%d' % (ty, op, n, m), inp,
                         new_list(ty, n) + new_list(ty, m, 'b', 'z') +
                         [{'op': 'cmp', 'obj': 'a', 'cmp': op, 'val': V('b')}])
                if ty in INTLISTS:
                    inp = {**elems(ty, n), **{'z%d' % i: ('int',) + ANYINT for i in range(m)}}
                yield sc('%s/cmp-%s-list/n%d/m%d' % (ty, op, n, m), inp,
                         new_list(ty, n) +
                         [{'op': 'cmp', 'obj': 'a', 'cmp': op, 'val': ('list', [V('z%d' % i) for i in range(m)])}])
        for op in ('eq', 'ne'):
            for val in (('int', 3), ('none',), ('list', [('str', 'q')] * n)):
                if val[0] == 'list' and ty not in INTLISTS:
                    continue
                yield sc('%s/cmp-%s-%s/n%d' % (ty, op, val[0] + ('s' if val[0] == 'list' else ''), n), elems(ty, n),
                         new_list(ty, n) + [{'op': 'cmp', 'obj': 'a', 'cmp': op, 'val': val}])


def concat(ty, N):
    for n in N:
        e = elems(ty, n)
        base = new_list(ty, n)
        for m in (0, 1, 2):
            inp = {**e, **elems(ty, m, 'z')}
            yield sc('%s/add-same/n%d/m%d' % (ty, n, m), inp,
                     base + new_list(ty, m, 'b', 'z') + [{'op': 'add', 'obj': 'a', 'val': V('b'), 'dst': 'c'}] +
                     obs('c', 'a', 'b'))
            yield sc('%s/add-list/n%d/m%d' % (ty, n, m), inp,
                     base + [{'op': 'add', 'obj': 'a', 'val': ('list', [V('z%d' % i) for i in range(m)])}] + obs('a'))
        yield sc('%s/add-self/n%d' % (ty, n), e, base + [{'op': 'add', 'obj': 'a', 'val': V('a'), 'dst': 'c'}] + obs('c', 'a'))
        yield sc('%s/add-bad/n%d' % (ty, n), e, base + [{'op': 'add', 'obj': 'a', 'val': ('int', 3)}] + obs('a'))
        for op in ('mul', 'imul', 'rmul'):
            if op == 'rmul':
                step = {'op': 'call', 'obj': 'a', 'name': '__rmul__', 'args': [V('k')], 'dst': 'c'}
            else:
                step = {'op': op, 'obj': 'a', 'val': V('k'), 'dst': 'c'}
            yield sc('%s/%s/n%d' % (ty, op, n), {**e, 'k': ('int', -(1 << 70), 3)}, base + [step] + obs('c', 'a'))
            if ty not in ('IntLinkedList', 'ObjectLinkedList'):
              yield sc('%s/%s-big/n%d' % (ty, op, n), {**e, 'k': ('int', 1 << 36, 1 << 70)}, base + [step] + obs('a'))


# ------------------------------------------------------------------ sorting, iteration, construction, rendering
def fn(key, **kw):
    return ('fn', dict(key=key, **kw))


def sort_plain(ty, N, cuts=True):
    """fully symbolic contents"""
    for n in N:
        for kw in ({}, {'reverse': ('bool', True)}, {'reverse': ('bool', False)}):
            if 'reverse' in kw and not kw['reverse'][1] and n > 2:
                continue
            yield sc('%s/sort%s/n%d' % (ty, '-rev' if kw.get('reverse', (0, 0))[1] else '', n), elems(ty, n),
                     new_list(ty, n) + [{'op': 'call', 'obj': 'a', 'name': 'sort', 'args': [], 'kw': kw}] + obs('a'))


def sort_two(ty, N, doms=None, free=99):
    """every content made of two values: a sorting network that sorts these sorts everything (0-1 principle)"""
    big = ty == 'BigIntArrayList'
    if doms is None:
        doms = [(-1, 0), (0, 1 << 32), (1, 2)] if big else [(-1, 0), (1, 2)]
    for n in N:
        for lo, hi in doms:
            for rev in (False, True):
                f = sorted({(i * n // min(free, n)) for i in range(min(free, n))})
                e = {'x%d' % i: ('int', lo, hi) for i in f}
                vs = [V('x%d' % i) if i in f else ('int', (lo, hi)[(i * 7 // 3) % 2]) for i in range(n)]
                yield sc('%s/sort2%s/n%d/%d,%d/f%d' % (ty, '-rev' if rev else '', n, lo, hi, len(f)), e,
                         [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('list', vs)]}] + [{'op': 'call', 'obj': 'a', 'name': 'sort', 'args': [],
                                             'kw': {'reverse': ('bool', True)} if rev else {}}] + obs('a'), two=(lo, hi))


def background(ty, n, seed):
    lo, hi = rng(ty)
    x, out = 12345 + 7919 * seed + n, []
    for i in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        v = (x >> 11) % (hi - lo + 1) + lo
        out.append((lo, hi, 0, -1, v, v, v, v, v >> 20, v)[(x >> 7) % 10])
    return out


def sort_bg(ty, N, free=2, seeds=(0,)):
    """concrete contents except for some positions holding any value"""
    for n in N:
        for sd in seeds:
            for rev in (False, True):
                bg = background(ty, n, sd)
                pos = sorted({(7 * sd + n * (2 * j + 1) // (2 * free)) % n for j in range(free)} | ({n - 1} if sd % 2 else set()))[:free]
                vs = [V('x%d' % pos.index(i)) if i in pos else ('int', bg[i]) for i in range(n)]
                e = {'x%d' % j: ('int',) + rng(ty) for j in range(len(pos))}
                yield sc('%s/sortbg%d%s/n%d/%d' % (ty, free, '-rev' if rev else '', n, sd), e,
                         [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('list', vs)]},
                          {'op': 'call', 'obj': 'a', 'name': 'sort', 'args': [],
                           'kw': {'reverse': ('bool', True)} if rev else {}}] + obs('a'))


def sort_keyed(ty, N):
    for n in N:
        for rev in (False, True):
            kw = {'reverse': ('bool', True)} if rev else {}
            r = '-rev' if rev else ''
            e = elems(ty, n)
            keys = ['ident', 'neg', 'half', 'const'] if ty in INTLISTS else ['ident', 'const', 'table']
            for k in keys:
                inp = dict(e)
                beh = fn(k, pre='k_') if k == 'table' else fn(k)
                if k == 'table':
                    inp.update({'k_x%d' % i: ('obj',) for i in range(n)})
                yield sc('%s/sortkey-%s%s/n%d' % (ty, k, r, n), inp,
                         new_list(ty, n) + [{'op': 'call', 'obj': 'a', 'name': 'sort', 'args': [],
                                             'kw': dict(kw, key=beh)}] + obs('a'))
        yield sc('%s/sortkey-None/n%d' % (ty, n), elems(ty, n),
                 new_list(ty, n) + [{'op': 'call', 'obj': 'a', 'name': 'sort', 'args': [], 'kw': {'key': ('none',)}}] + obs('a'))


def sort_fail(ty, N):
    """keys and comparisons that raise at every call"""
    for n in N:
        e = elems(ty, n)
        for at in range(n):
            yield sc('%s/sortkey-raise@%d/n%d' % (ty, at, n), e,
                     new_list(ty, n) + [{'op': 'call', 'obj': 'a', 'name': 'sort', 'args': [], 'kw': {'key': fn('ident')}}] +
                     obs('a'), events=[{'on': 'call', 'at': at, 'do': 'raise'}])
        if ty not in INTLISTS:
            for at in range(0, max(0, n * (n - 1) // 2)):
                for rev in (False, True):
                    for key in (False, True):
                        kw = {}
                        if rev:
                            kw['reverse'] = ('bool', True)
                        if key:
                            kw['key'] = fn('ident')
                        yield sc('%s/sort-cmpraise@%d%s%s/n%d' % (ty, at, '-rev' if rev else '', '-key' if key else '', n), e,
                                 new_list(ty, n) + [{'op': 'call', 'obj': 'a', 'name': 'sort', 'args': [], 'kw': kw}] +
                                 obs('a') + [{'op': 'call', 'obj': 'a', 'name': 'append', 'args': [('none',)]}] + obs('a'),
                                 events=[{'on': 'cmp', 'at': at, 'do': 'raise'}])
        yield sc('%s/sort-badkey/n%d' % (ty, n), e,
                 new_list(ty, n) + [{'op': 'call', 'obj': 'a', 'name': 'sort', 'args': [], 'kw': {'key': ('int', 3)}}] + obs('a'))


def iters(ty, N):
    for n in N:
        e = elems(ty, n)
        for op in ('iter', 'reversed'):
            nx = [{'op': 'next', 'obj': 'it'}]
            yield sc('%s/%s/n%d' % (ty, op, n), e,
                     new_list(ty, n) + [{'op': op, 'obj': 'a', 'dst': 'it'}] + nx * (n + 2) + obs('a'))
            yield sc('%s/%s-iter/n%d' % (ty, op, n), e,
                     new_list(ty, n) + [{'op': op, 'obj': 'a', 'dst': 'it'}] + nx + [{'op': 'iter', 'obj': 'it'}] +
                     [{'op': 'tolist', 'obj': 'it'}])
            yield sc('%s/%s-outlive/n%d' % (ty, op, n), e,
                     new_list(ty, n) + [{'op': op, 'obj': 'a', 'dst': 'it'}, {'op': 'del', 'obj': 'a'}] + nx * (n + 1))
            yield sc('%s/%s-two/n%d' % (ty, op, n), e,
                     new_list(ty, n) + [{'op': op, 'obj': 'a', 'dst': 'it'}, {'op': op, 'obj': 'a', 'dst': 'it2'}] + nx +
                     [{'op': 'next', 'obj': 'it2'}] + nx + [{'op': 'next', 'obj': 'it2'}])


def iter_mutate(ty, N):
    for n in N:
        e = elems(ty, n)
        y = newval(ty)
        call = lambda nm, *a: [{'op': 'call', 'obj': 'a', 'name': nm, 'args': list(a)}]  # noqa: E731
        muts = {'append': call('append', V('y')), 'pop': call('pop'), 'pop0': call('pop', ('int', 0)),
                'insert0': call('insert', ('int', 0), V('y')), 'clear': call('clear'), 'popi': call('pop', V('k')),
                'delslice': [{'op': 'delitem', 'obj': 'a', 'key': ('slice', ('int', 0), ('int', 2), ('none',))}],
                'grow': call('extend', ('list', [V('y')] * 5)), 'reverse': call('reverse'),
                'set': [{'op': 'setitem', 'obj': 'a', 'key': ('int', -1), 'val': V('y')}],
                'imul0': [{'op': 'imul', 'obj': 'a', 'val': ('int', 0)}],
                'clear+append': call('clear') + call('append', V('y')),
                'pop+append': call('pop') + call('append', V('y')),
                'sort': call('sort')}
        for op in ('iter', 'reversed'):
            for k in range(0, n + 2):
                for m, steps in muts.items():
                    inp = {**e, **y}
                    if m == 'popi':
                        inp['k'] = ('int', -n - 1, n)
                    nx = [{'op': 'next', 'obj': 'it'}]
                    yield sc('%s/%s-%s@%d/n%d' % (ty, op, m, k, n), inp,
                             new_list(ty, n) + [{'op': op, 'obj': 'a', 'dst': 'it'}] + nx * k + steps + nx * (n + 1) + obs('a'))


def construct(ty, N):
    for n in N:
        vs = [V('x%d' % i) for i in range(n)]
        e = elems(ty, n)
        srcs = {'list': ('list', vs), 'tuple': ('tuple', vs), 'iterable': ('iterable', vs, {}), 'seq': ('seq', vs, {}),
                'raise': ('iterable', vs, {'end': 'raise'}), 'noiter': ('iterable', vs, {'iter_raises': True}),
                'hint': ('iterable', vs, {'hint': 3}), 'hugehint': ('iterable', vs, {'hint': 1 << 40}),
                'hintraise': ('iterable', vs, {'hint': 'raise'})}
        for nm, v in srcs.items():
            yield sc('%s/new-%s/n%d' % (ty, nm, n), e, [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [v]}] + obs('a') +
                     [{'op': 'call', 'obj': 'a', 'name': 'append', 'args': [zero(ty)]}] + obs('a'))
        for other in ALL:
            if (other in INTLISTS) != (ty in INTLISTS):
                continue
            inp = {'x%d' % i: ('int',) + rng('IntArrayList') for i in range(n)} if ty in INTLISTS else e
            yield sc('%s/new-from-%s/n%d' % (ty, other, n), inp,
                     new_list(other, n, 'b') + [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [V('b')]}] + obs('a', 'b') +
                     [{'op': 'call', 'obj': 'b', 'name': 'clear', 'args': []}] + obs('a', 'b'))
        yield sc('%s/new-hinted/n%d' % (ty, n), {**e, 'k': ('int', -(1 << 70), 1 << 70)},
                 [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('list', vs), V('k')]}] + obs('a'))
        if ty in INTLISTS and n:
            for bad in (('str', 'q'), ('none',), ('float', 1.5)):
                yield sc('%s/new-badelem-%s/n%d' % (ty, bad[0], n), e,
                         [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('list', vs + [bad] + vs)]}] + obs('a'))
        yield sc('%s/copy-indep/n%d' % (ty, n), {**e, **newval(ty)},
                 new_list(ty, n) + [{'op': 'call', 'obj': 'a', 'name': 'copy', 'args': [], 'dst': 'b'},
                                    {'op': 'call', 'obj': 'b', 'name': 'append', 'args': [V('y')]},
                                    {'op': 'setitem', 'obj': 'a', 'key': ('int', 0), 'val': V('y')},
                                    {'op': 'del', 'obj': 'a'}] + obs('b'))
    yield sc('%s/new-cap' % ty, {'k': ('int', -(1 << 70), 1 << 70)},
             [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [V('k')]}] + obs('a') +
             [{'op': 'call', 'obj': 'a', 'name': 'append', 'args': [zero(ty)]}] + obs('a'))
    for nm, args in (('none', [('none',)]), ('float', [('float', 1.5)]), ('badhint', [('list', []), ('str', 'x')]),
                     ('three', [('list', []), ('int', 1), ('int', 2)])):
        yield sc('%s/new-bad-%s' % (ty, nm), {}, [{'op': 'new', 'dst': 'a', 'type': ty, 'args': args}] + obs('a'))


def from_range(ty, N, symstep=24):
    """N: numbers of elements"""
    if ty not in INTLISTS:
        return
    S64 = ('int', -(1 << 63), (1 << 63) - 1)
    K = max(N)

    def short(step):
        def cond(ctx):
            import z3
            a, b = ctx.bv['a'], ctx.bv['b']
            s = ctx.bv['c'] if step is None else step
            lim = a + K * s
            up = z3.And(s > 0, lim >= b) if step is None else (lim >= b if step > 0 else False)
            dn = z3.And(s < 0, lim <= b) if step is None else (lim <= b if step < 0 else False)
            return z3.Or(up, dn, s == 0) if step is None else (up if step > 0 else dn)
        return cond

    def steps(args):
        return [{'op': 'callstatic', 'type': ty, 'name': 'from_range', 'args': args, 'dst': 'l'}] + obs('l')
    yield sc('%s/from_range1' % ty, {'b': ('int', -(1 << 70), K)}, steps([V('b')]))
    yield sc('%s/from_range2' % ty, {'a': S64, 'b': S64},
             [{'op': 'assume', 'cond': short(1)}] + steps([V('a'), V('b')]))
    e31, e62 = 1 << 31, 1 << 62
    for c in (1, -1, 2, -2, 3, -3, 7, -7, 10, e31 - 1, -e31, e31, 1 << 40, e62, -e62, (1 << 63) - 1, -(1 << 63)):
        yield sc('%s/from_range3/c%d' % (ty, c), {'a': S64, 'b': S64},
                 [{'op': 'assume', 'cond': short(c)}] + steps([V('a'), V('b'), ('int', c)]))
    if symstep:
        R = ('int', -(1 << symstep), (1 << symstep) - 1)
        yield sc('%s/from_range3/sym%d' % (ty, symstep), {'a': R, 'b': R, 'c': R},
                 [{'op': 'assume', 'cond': short(None)}] + steps([V('a'), V('b'), V('c')]))
    yield sc('%s/from_range3/zero' % ty, {'a': S64, 'b': S64}, steps([V('a'), V('b'), ('int', 0)]))
    for i in range(3):
        args = [('int', 0), ('int', 1), ('int', 1)]
        args[i] = V('b')
        yield sc('%s/from_range3/huge%d' % (ty, i), {'b': ('int', 1 << 63, 1 << 70)}, steps(args))
        args[i] = ('str', 'x')
        yield sc('%s/from_range3/bad%d' % (ty, i), {}, steps(args))
    yield sc('%s/from_range0' % ty, {}, steps([]))
    yield sc('%s/from_range4' % ty, {}, steps([('int', 1)] * 4))


def store_read(ty, N):
    """integer fidelity: every way to store a value, every way to read it back"""
    vs = lambda n: [V('x%d' % i) for i in range(n)]  # noqa: E731
    call = lambda nm, *a, **k: [dict({'op': 'call', 'obj': 'a', 'name': nm, 'args': list(a)}, **k)]  # noqa: E731
    for n in N:
        if not n:
            continue
        e = elems(ty, n)
        z = [zero(ty)] * n
        stores = {
            'new': new_list(ty, n), 'append': new_list(ty, n, how='append'),
            'newtuple': [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('tuple', vs(n))]}],
            'newiter': [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('iterable', vs(n), {})]}],
            'insert': [{'op': 'new', 'dst': 'a', 'type': ty, 'args': []}] +
            [s for v in reversed(vs(n)) for s in call('insert', ('int', 0), v)],
            'set': [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('list', z)]}] +
            [{'op': 'setitem', 'obj': 'a', 'key': ('int', i), 'val': v} for i, v in enumerate(vs(n))],
            'extend': [{'op': 'new', 'dst': 'a', 'type': ty, 'args': []}] + call('extend', ('list', vs(n))),
            'extendtuple': [{'op': 'new', 'dst': 'a', 'type': ty, 'args': []}] + call('extend', ('tuple', vs(n))),
            'extenditer': [{'op': 'new', 'dst': 'a', 'type': ty, 'args': []}] + call('extend', ('iterable', vs(n), {})),
            'iadd': [{'op': 'new', 'dst': 'a', 'type': ty, 'args': []}, {'op': 'iadd', 'obj': 'a', 'val': ('list', vs(n))}],
            'slice': [{'op': 'new', 'dst': 'a', 'type': ty, 'args': []},
                      {'op': 'setitem', 'obj': 'a', 'key': ('slice', ('none',), ('none',), ('none',)), 'val': ('list', vs(n))}],
            'add': [{'op': 'new', 'dst': 'b', 'type': ty, 'args': []},
                    {'op': 'add', 'obj': 'b', 'val': ('list', vs(n)), 'dst': 'a'}],
        }
        nx = [{'op': 'next', 'obj': 'it'}]
        reads_ = {
            'get': [{'op': 'getitem', 'obj': 'a', 'key': ('int', i - n)} for i in range(n)],
            'slice': [{'op': 'getitem', 'obj': 'a', 'key': ('slice', ('none',), ('none',), ('none',))}],
            'slicerev': [{'op': 'getitem', 'obj': 'a', 'key': ('slice', ('none',), ('none',), ('int', -1))}],
            'pop': call('pop') * n, 'pop0': call('pop', ('int', 0)) * n,
            'iter': [{'op': 'iter', 'obj': 'a', 'dst': 'it'}] + nx * n,
            'reversed': [{'op': 'reversed', 'obj': 'a', 'dst': 'it'}] + nx * n,
            'to_list': call('to_list'), 'copy': call('copy', dst='c') + [{'op': 'del', 'obj': 'a'}] + obs('c'),
            'tolist': [{'op': 'tolist', 'obj': 'a'}],
            'relist': [{'op': 'new', 'dst': 'c', 'type': ty, 'args': [V('a')]}, {'op': 'del', 'obj': 'a'}] + obs('c'),
        }
        for k, s in stores.items():
            yield sc('%s/store-%s/n%d' % (ty, k, n), e, s + (obs('a') if k != 'add' else []))
        for k, r in reads_.items():
            yield sc('%s/read-%s/n%d' % (ty, k, n), e, stores['new'] + r)
            yield sc('%s/app-read-%s/n%d' % (ty, k, n), e, stores['append'] + r)
        for bn, bad in (('str', ('str', 'q')), ('none', ('none',)), ('float', ('float', 2.5)), ('list', ('list', []))):
            base = new_list(ty, n)
            yield sc('%s/bad-append-%s/n%d' % (ty, bn, n), e, base + call('append', bad) + obs('a'))
            yield sc('%s/bad-insert-%s/n%d' % (ty, bn, n), e, base + call('insert', ('int', 0), bad) + obs('a'))
            yield sc('%s/bad-set-%s/n%d' % (ty, bn, n), e,
                     base + [{'op': 'setitem', 'obj': 'a', 'key': ('int', 0), 'val': bad}] + obs('a'))
            yield sc('%s/bad-slice-%s/n%d' % (ty, bn, n), e, base + [
                {'op': 'setitem', 'obj': 'a', 'key': ('slice', ('int', 0), ('int', 1), ('none',)),
                 'val': ('list', vs(n) + [bad] + vs(n))}] + obs('a'))


def reverse(ty, N):
    for n in N:
        yield sc('%s/reverse/n%d' % (ty, n), elems(ty, n),
                 new_list(ty, n) + [{'op': 'call', 'obj': 'a', 'name': 'reverse', 'args': []}] + obs('a'))


def resize(ty, N):
    if ty.endswith('LinkedList'):
        return
    call = lambda nm, *a: [{'op': 'call', 'obj': 'a', 'name': nm, 'args': list(a)}]  # noqa: E731
    for n in N:
        e = elems(ty, n)
        for nm, r in (('small', (-(1 << 70), 5)), ('huge', (1 << 45, 1 << 70))):
            yield sc('%s/resize-%s/n%d' % (ty, nm, n), {**e, 'k': ('int',) + r, **newval(ty)},
                     new_list(ty, n) + call('resize', V('k')) + obs('a') + call('append', V('y')) + obs('a'))
        for how in ('append', 'pop'):
            yield sc('%s/resize2-%s/n%d' % (ty, how, n), {**e, 'k': ('int', 0, 4), 'm': ('int', 0, 4)},
                     new_list(ty, n, how=how) + call('resize', V('k')) + call('resize', V('m')) + obs('a'))
        for bad in (('none',), ('str', 'x'), ('float', 1.0)):
            yield sc('%s/resize-%s/n%d' % (ty, bad[0], n), e, new_list(ty, n) + call('resize', bad) + obs('a'))


def rendering(ty, N):
    call = lambda nm, *a, **k: [dict({'op': 'call', 'obj': 'a', 'name': nm, 'args': list(a)}, **k)]  # noqa: E731
    R = lambda op='repr': [{'op': op, 'obj': 'a'}]  # noqa: E731
    for n in N:
        e = elems(ty, n)
        if ty in INTLISTS and n > 1:
            e = {k: v if n == 2 and k == 'x0' else ('int', -101, 101) for k, v in e.items()}
        for op in ('repr', 'str'):
            yield sc('%s/%s/n%d' % (ty, op, n), e, new_list(ty, n) + R(op) + obs('a'))
        yield sc('%s/to_list-indep/n%d' % (ty, n), {**e, **newval(ty)},
                 new_list(ty, n) + call('to_list', dst='b') + call('append', V('y')) + call('to_list') +
                 [{'op': 'del', 'obj': 'a'}, {'op': 'del', 'obj': 'b'}])
        yield sc('%s/copy-indep2/n%d' % (ty, n), {**e, **newval(ty)},
                 new_list(ty, n) + call('copy', dst='b') + call('append', V('y')) + obs('a', 'b') +
                 [{'op': 'call', 'obj': 'b', 'name': 'clear', 'args': []}] + obs('a', 'b') + call('clear') +
                 [{'op': 'call', 'obj': 'b', 'name': 'append', 'args': [V('y')]}] + obs('a', 'b'))
        if ty not in INTLISTS:
            for at in range(n):
                yield sc('%s/repr-raise@%d/n%d' % (ty, at, n), e, new_list(ty, n) + R() + obs('a'),
                         events=[{'on': 'repr', 'at': at, 'do': 'raise'}])
            for i in range(n + 1):
                yield sc('%s/repr-self@%d/n%d' % (ty, i, n), e,
                         new_list(ty, n) + call('insert', ('int', i), V('a')) + R() + R() + call('pop', ('int', i)) + R())
            muts = {'clear': call('clear'), 'pop': call('pop'), 'pop0': call('pop', ('int', 0)),
                    'append': call('append', ('none',)), 'insert0': call('insert', ('int', 0), ('none',)),
                    'grow': call('extend', ('list', [('none',)] * 9)),
                    'delall': [{'op': 'delitem', 'obj': 'a', 'key': ('slice', ('none',), ('none',), ('none',))}]}
            for at in range(n):
                for m, st in muts.items():
                    yield sc('%s/repr-%s@%d/n%d' % (ty, m, at, n), e, new_list(ty, n) + R() + obs('a'),
                             events=[{'on': 'repr', 'at': at, 'do': st}])


def buffer(ty, N):
    if ty not in ('IntArrayList', 'BigIntArrayList'):
        return
    call = lambda nm, *a, **k: [dict({'op': 'call', 'obj': 'a', 'name': nm, 'args': list(a)}, **k)]  # noqa: E731
    view = lambda fl=('int', 0x11c), dst='w': [{'op': 'view', 'obj': 'a', 'dst': dst, 'flags': fl}]  # noqa: E731
    W = lambda op, w='w', **k: [dict({'op': op, 'view': w}, **k)]  # noqa: E731
    chk, rel = W('vcheck'), W('vrel')
    none = ('none',)
    for n in N:
        e, y = elems(ty, n), newval(ty)
        for how in ('list', 'append', 'pop'):
            yield sc('%s/view-flags-%s/n%d' % (ty, how, n), {**e, 'f': ('int', 0, 0x1ff)},
                     new_list(ty, n, how=how) + view(V('f')) + chk + rel + obs('a'))
        for i in range(n):
            yield sc('%s/view-write%d/n%d' % (ty, i, n), {**e, **y},
                     new_list(ty, n) + view() + W('vset', i=i, val=V('y')) + obs('a') +
                     [{'op': 'setitem', 'obj': 'a', 'key': ('int', n - 1 - i), 'val': V('y')}] + chk + rel + obs('a'))
            yield sc('%s/view-set%d/n%d' % (ty, i, n), {**e, **y},
                     new_list(ty, n) + view() + [{'op': 'setitem', 'obj': 'a', 'key': ('int', i), 'val': V('y')}] + chk +
                     call('reverse') + chk + call('sort') + chk + rel + obs('a'))
        yield sc('%s/view-alive/n%d' % (ty, n), e,
                 new_list(ty, n) + view() + [{'op': 'del', 'obj': 'a'}] + chk + rel)
        yield sc('%s/view-two/n%d' % (ty, n), {**e, **y},
                 new_list(ty, n) + view() + view(('int', 0), 'u') + (W('vset', i=0, val=V('y')) if n else []) + chk +
                 W('vcheck', 'u') + rel + W('vcheck', 'u') + call('append', V('y')) + W('vcheck', 'u') + W('vrel', 'u') +
                 call('append', V('y')) + obs('a') + view() + chk + rel)
        muts = {'append': call('append', V('y')), 'insert': call('insert', ('int', 0), V('y')),
                'extend': call('extend', ('list', [V('y')] * 9)), 'pop': call('pop'), 'pop0': call('pop', ('int', 0)),
                'clear': call('clear'), 'remove': call('remove', V('x0')) if n else call('clear'),
                'extendself': call('extend', V('a')), 'extendit': call('extend', ('iterable', [V('y')], {})),
                'iadd': [{'op': 'iadd', 'obj': 'a', 'val': ('list', [V('y')] * 9)}],
                'imul': [{'op': 'imul', 'obj': 'a', 'val': ('int', 3)}], 'imul0': [{'op': 'imul', 'obj': 'a', 'val': ('int', 0)}],
                'delitem': [{'op': 'delitem', 'obj': 'a', 'key': ('int', 0)}],
                'delslice': [{'op': 'delitem', 'obj': 'a', 'key': ('slice', none, none, none)}],
                'slice': [{'op': 'setitem', 'obj': 'a', 'key': ('slice', ('int', 0), ('int', 1), none), 'val': ('list', [V('y')] * 9)}],
                'slice0': [{'op': 'setitem', 'obj': 'a', 'key': ('slice', none, none, none), 'val': ('list', [])}],
                'resize': call('resize', ('int', 99)), 'resize0': call('resize', ('int', 0)),
                'sort': call('sort'), 'reverse': call('reverse'), 'copy': call('copy', dst='b'), 'iter': [{'op': 'tolist', 'obj': 'a'}]}
        for m, st in muts.items():
            yield sc('%s/view-%s/n%d' % (ty, m, n), {**e, **y},
                     new_list(ty, n) + view() + st + chk + obs('a') + rel + obs('a') + st + obs('a'))


def C_(nm, *a, **k):
    return [dict({'op': 'call', 'obj': 'a', 'name': nm, 'args': list(a)}, **k)]


N_, FULL = ('none',), ('slice', ('none',), ('none',), ('none',))


def op_table(ty):
    """one representative of every operation: name -> (steps on list a, inputs)"""
    y, k = V('y'), V('k')
    K = {'k': ('int', -4, 4)}
    t = {'append': (C_('append', y), {}), 'insert': (C_('insert', k, y), K), 'pop': (C_('pop'), {}), 'popi': (C_('pop', k), K),
         'remove': (C_('remove', y), {}), 'clear': (C_('clear'), {}), 'reverse': (C_('reverse'), {}),
         'extend': (C_('extend', ('list', [y, V('x0'), y])), {}), 'extendself': (C_('extend', V('a')), {}),
         'extendit': (C_('extend', ('iterable', [y, y], {'hint': 1})), {}),
         'iadd': ([{'op': 'iadd', 'obj': 'a', 'val': ('list', [y])}], {}),
         'imul': ([{'op': 'imul', 'obj': 'a', 'val': ('int', 2)}], {}), 'imul0': ([{'op': 'imul', 'obj': 'a', 'val': ('int', 0)}], {}),
         'set': ([{'op': 'setitem', 'obj': 'a', 'key': k, 'val': y}], K), 'del': ([{'op': 'delitem', 'obj': 'a', 'key': k}], K),
         'setslice': ([{'op': 'setitem', 'obj': 'a', 'key': ('slice', k, ('int', 2), N_), 'val': ('list', [y, y])}], K),
         'setslice1': ([{'op': 'setitem', 'obj': 'a', 'key': ('slice', ('int', 0), k, N_), 'val': ('list', [y])}], K),
         'setself': ([{'op': 'setitem', 'obj': 'a', 'key': ('slice', k, k, N_), 'val': V('a')}], K),
         'delslice': ([{'op': 'delitem', 'obj': 'a', 'key': ('slice', k, N_, N_)}], K),
         'get': ([{'op': 'getitem', 'obj': 'a', 'key': k}], K), 'index': (C_('index', y), {}), 'count': (C_('count', y), {}),
         'in': ([{'op': 'contains', 'obj': 'a', 'val': y}], {}), 'sort': (C_('sort'), {}),
         'getslice': ([{'op': 'getitem', 'obj': 'a', 'key': ('slice', k, N_, ('int', -1))}], K),
         'iter': ([{'op': 'tolist', 'obj': 'a'}], {}), 'copy': (C_('copy', dst='b') + obs('b'), {}),
         'add': ([{'op': 'add', 'obj': 'a', 'val': V('a'), 'dst': 'c'}] + obs('c'), {})}
    if not ty.endswith('LinkedList'):
        t['resize'] = (C_('resize', ('int', 7)), {})
        t['shrink'] = (C_('resize', ('int', 1)), {})
    return t


CHANGING = ('append', 'insert', 'pop', 'popi', 'remove', 'clear', 'reverse', 'extend', 'extendself', 'extendit', 'iadd', 'imul', 'imul0',
            'set', 'del', 'setslice', 'setslice1', 'setself', 'delslice', 'resize', 'shrink', 'get', 'getslice')


def rename(x, suf):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == 'v' and x[1] in ('k', 'y'):
            return ('v', x[1] + suf)
        return type(x)(rename(i, suf) for i in x)
    if isinstance(x, dict):
        return {a: rename(b, suf) for a, b in x.items()}
    return x


def pairs(ty, N, first=CHANGING, depth=2):
    """every operation after every list changing operation"""
    t = op_table(ty)
    for n in N:
        e = elems(ty, max(n, 1))
        for a in first:
            if a not in t:
                continue
            for b in t:
                s1, i1 = t[a]
                s2, i2 = t[b]
                inp = {**e, **newval(ty, 'yA'), **newval(ty, 'yB'), **{x + 'A': d for x, d in i1.items()},
                       **{x + 'B': d for x, d in i2.items()}}
                yield sc('%s/pair-%s+%s/n%d' % (ty, a, b, n), inp,
                         new_list(ty, n) + rename(s1, 'A') + rename(s2, 'B') + obs('a'))


def triples(ty, N, seed=0, count=200):
    """operation sequences of length three, chosen pseudo-randomly"""
    import random
    r = random.Random(seed * 1000 + len(ty))
    t = op_table(ty)
    ch = [c for c in CHANGING if c in t]
    for n in N:
        e = elems(ty, max(n, 1))
        for q in range(count):
            ops = [r.choice(ch), r.choice(ch), r.choice(sorted(t))]
            inp = {**e}
            steps = new_list(ty, n, how=r.choice(('list', 'append', 'pop')))
            for j, o in enumerate(ops):
                suf = 'ABC'[j]
                st, i = t[o]
                inp.update(newval(ty, 'y' + suf))
                inp.update({x + suf: d for x, d in i.items()})
                steps = steps + rename(st, suf)
            yield sc('%s/triple-%s#%d.%d/n%d' % (ty, '+'.join(ops), seed, q, n), inp, steps + obs('a'))


MUT = {'clear': C_('clear'), 'pop': C_('pop'), 'append': C_('append', V('y')), 'insert0': C_('insert', ('int', 0), V('y')),
       'grow': C_('extend', ('list', [V('y')] * 9)), 'delall': [{'op': 'delitem', 'obj': 'a', 'key': FULL}],
       'pop0': C_('pop', ('int', 0)), 'imul0': [{'op': 'imul', 'obj': 'a', 'val': ('int', 0)}],
       'set': [{'op': 'setitem', 'obj': 'a', 'key': ('int', 0), 'val': V('y')}],
       'clear+append': C_('clear') + C_('append', V('y')), 'reverse': C_('reverse')}
MUT2 = ('clear', 'grow', 'pop', 'set', 'clear+append')


def reenter(ty, N, muts=MUT2, raises=True):
    """the list is changed by user code while one of its operations runs"""
    call = C_
    for n in N:
        e = {**elems(ty, n), **newval(ty)}
        base = new_list(ty, n)
        vs = [V('y'), zero(ty), V('y')]

        def run(name, steps, on, ats, extra=None):
            for at in ats:
                for m in muts:
                    yield sc('%s/re-%s-%s@%s:%s/n%d' % (ty, name, m, on, at, n), {**e, **(extra or {})}, base + steps + obs('a') +
                             C_('append', V('y')), events=[{'on': on, 'at': at, 'do': MUT[m]}])
                if raises:
                    yield sc('%s/re-%s-raise@%s:%s/n%d' % (ty, name, on, at, n), {**e, **(extra or {})}, base + steps + obs('a') +
                             C_('append', V('y')), events=[{'on': on, 'at': at, 'do': 'raise'}])
        its = {'it': ('iterable', vs, {}), 'seq': ('seq', vs, {}), 'hint': ('iterable', vs, {'hint': 2})}
        for nm, v in its.items():
            users = {'extend': call('extend', v), 'iadd': [{'op': 'iadd', 'obj': 'a', 'val': v}],
                     'slice': [{'op': 'setitem', 'obj': 'a', 'key': ('slice', ('int', 0), ('int', 1), N_), 'val': v}],
                     'slice2': [{'op': 'setitem', 'obj': 'a', 'key': ('slice', ('int', 1), N_, N_), 'val': v}],
                     'new': [{'op': 'new', 'dst': 'q', 'type': ty, 'args': [v]}],
                     'add': [{'op': 'add', 'obj': 'a', 'val': v}]}
            for u, st in users.items():
                yield from run('%s-%s' % (u, nm), st, 'next', (0, 1, 3))
                yield from run('%s-%s' % (u, nm), st, 'iter', (0,))
                if nm == 'hint':
                    yield from run('%s-%s' % (u, nm), st, 'hint', (0,))
                if nm == 'seq':
                    yield from run('%s-%s' % (u, nm), st, 'len', (0, 1))
                    yield from run('%s-%s' % (u, nm), st, 'item', (0, 1))
        keyed = call('sort', kw={'key': fn('none')})
        yield from run('sort-key', keyed, 'call', range(n))
        if ty in INTLISTS:
            continue
        users = {'in': [{'op': 'contains', 'obj': 'a', 'val': V('y')}], 'index': call('index', V('y')), 'count': call('count', V('y')),
                 'remove': call('remove', V('y')), 'sort': call('sort'),
                 'eqlist': [{'op': 'cmp', 'obj': 'a', 'cmp': 'eq', 'val': ('list', [V('y')] * n)}],
                 'ltlist': [{'op': 'cmp', 'obj': 'a', 'cmp': 'lt', 'val': ('list', [V('y')] * n)}],
                 'eqsame': [{'op': 'cmp', 'obj': 'a', 'cmp': 'eq', 'val': V('b')}],
                 'gesame': [{'op': 'cmp', 'obj': 'a', 'cmp': 'ge', 'val': V('b')}],
                 'eqsame2': [{'op': 'cmp', 'obj': 'b', 'cmp': 'ne', 'val': V('a')}]}
        mk = [{'op': 'new', 'dst': 'b', 'type': ty, 'args': [('list', [V('y')] * n)]}]
        for u, st in users.items():
            yield from run(u, (mk if 'same' in u else []) + st, 'cmp', range(min(n, 2 if u != 'sort' else 3)))


def dels(ty, N):
    """elements whose finalizer uses the list they are removed from"""
    if ty in INTLISTS:
        return
    for n in N:
        if not n:
            continue
        e = {**elems(ty, n), **newval(ty), **newval(ty, 'z')}
        users = {'clear': C_('clear'), 'pop': C_('pop'), 'pop0': C_('pop', ('int', 0)),
                 'set': [{'op': 'setitem', 'obj': 'a', 'key': ('int', 0), 'val': V('z')}],
                 'del': [{'op': 'delitem', 'obj': 'a', 'key': ('int', 0)}],
                 'delall': [{'op': 'delitem', 'obj': 'a', 'key': FULL}],
                 'dellast': [{'op': 'delitem', 'obj': 'a', 'key': ('slice', ('int', -1), N_, N_)}],
                 'slice': [{'op': 'setitem', 'obj': 'a', 'key': FULL, 'val': ('list', [V('z')])}],
                 'slicegrow': [{'op': 'setitem', 'obj': 'a', 'key': ('slice', ('int', 0), ('int', 1), N_), 'val': ('list', [V('z')] * 6)}],
                 'imul0': [{'op': 'imul', 'obj': 'a', 'val': ('int', 0)}],
                 'dellist': [{'op': 'del', 'obj': 'a'}]}
        if not ty.endswith('LinkedList'):
            users['resize0'] = C_('resize', ('int', 0))
        muts = dict(MUT, read=[{'op': 'getitem', 'obj': 'a', 'key': ('int', 0)}, {'op': 'tolist', 'obj': 'a'}, {'op': 'repr', 'obj': 'a'}])
        for u, st in users.items():
            for i in sorted({0, n - 1}):
                for m, ms in muts.items():
                    yield sc('%s/fin-%s-x%d-%s/n%d' % (ty, u, i, m, n), e, new_list(ty, n) + [{'op': 'del', 'obj': 'x%d' % i}] + st +
                             obs('a') + C_('append', V('y')), events=[{'on': 'del:x%d' % i, 'at': 0, 'do': ms}])


def badargs(ty, N):
    """wrong types, wrong counts, failing conversions"""
    vals = {'str': ('str', 'q'), 'none': ('none',), 'float': ('float', 1.5), 'list': ('list', [('int', 1)]), 'big': ('int', 1 << 70),
            'index': ('index', ('int', 0))}
    y = zero(ty)
    for n in N:
        e = elems(ty, n)
        base = new_list(ty, n)

        def t(nm, st, **kw):
            return sc('%s/bad-%s/n%d' % (ty, nm, n), {**e, **newval(ty)}, base + st + obs('a') + C_('append', V('y')) + obs('a'), **kw)
        for m, counts in (('extend', (0, 2, 3)), ('pop', (2, 3)), ('insert', (0, 1, 3)), ('index', (0, 4)), ('sort', (1, 2))):
            for c in counts:
                yield t('count-%s-%d' % (m, c), C_(m, *([('int', 0)] * c)))
        for vn, v in vals.items():
            for m, args in (('pop', [v]), ('insert', [v, y]), ('index', [y, v]), ('index', [y, ('int', 0), v]), ('extend', [v]),
                            ('resize', [v]), ('__rmul__', [v])):
                if m == 'resize' and ty.endswith('LinkedList') or m == 'extend' and vn == 'list' or m == '__rmul__' and vn in ('index',):
                    continue
                yield t('type-%s%d-%s' % (m, len(args), vn), C_(m, *args))
            for op in ('getitem', 'delitem', 'setitem'):
                d = {'op': op, 'obj': 'a', 'key': v}
                if op == 'setitem':
                    d['val'] = y
                yield t('key-%s-%s' % (op, vn), [d])
                for j in range(3):
                    if vn in ('none', 'big', 'index'):
                        continue
                    ks = [N_, N_, N_]
                    ks[j] = v
                    d = {'op': op, 'obj': 'a', 'key': ('slice',) + tuple(ks)}
                    if op == 'setitem':
                        d['val'] = ('list', [])
                    yield t('slice%d-%s-%s' % (j, op, vn), [d])
            for op in ('add', 'mul', 'iadd', 'imul'):
                if op in ('add', 'iadd') and vn == 'list' or op in ('mul', 'imul') and vn in ('index', 'big'):
                    continue
                yield t('bin-%s-%s' % (op, vn), [{'op': op, 'obj': 'a', 'val': v}])
            if vn not in ('none', 'float', 'big', 'index'):
                yield t('sortkey-%s' % vn, C_('sort', kw={'key': v}))
            if ty in INTLISTS and vn not in ('big', 'index'):
                for m, args in (('append', [v]), ('insert', [('int', 0), v]), ('extend', [('list', [y, v])]),
                                ('extend', [('tuple', [v, y])]), ('extend', [('iterable', [y, v, y], {})]), ('extend', [('seq', [y, v], {})])):
                    yield t('elem-%s%s-%s' % (m, args[0][0] if m == 'extend' else '', vn), C_(m, *args))
                for nm, vv in (('list', ('list', [y, v, y])), ('it', ('iterable', [y, v], {})), ('seq', ('seq', [v, y], {}))):
                    yield t('elem-slice%s-%s' % (nm, vn), [{'op': 'setitem', 'obj': 'a', 'key': ('slice', ('int', 0), ('int', 1), N_), 'val': vv}])
                    yield t('elem-add%s-%s' % (nm, vn), [{'op': 'add', 'obj': 'a', 'val': vv}])
                    yield t('elem-iadd%s-%s' % (nm, vn), [{'op': 'iadd', 'obj': 'a', 'val': vv}])
                yield t('elem-set-%s' % vn, [{'op': 'setitem', 'obj': 'a', 'key': ('int', 0), 'val': v}])
        yield t('sortkw', C_('sort', kw={'foo': ('int', 1)}))
        yield t('sortkw2', C_('sort', kw={'key': N_, 'reverse': ('bool', True), 'foo': ('int', 1)}))
        for w in ('end', 'iter_raises'):
            v = ('iterable', [y, y], {'end': 'raise'} if w == 'end' else {'iter_raises': True})
            yield t('it-%s-slice' % w, [{'op': 'setitem', 'obj': 'a', 'key': ('slice', ('int', 0), N_, N_), 'val': v}])
            yield t('it-%s-add' % w, [{'op': 'add', 'obj': 'a', 'val': v}])
            yield t('it-%s-iadd' % w, [{'op': 'iadd', 'obj': 'a', 'val': v}])
            yield t('it-%s-extend' % w, C_('extend', v))
            yield t('it-%s-new' % w, [{'op': 'new', 'dst': 'q', 'type': ty, 'args': [v]}])
        for cmp_ in ('lt', 'le', 'gt', 'ge'):
            for vn in ('str', 'none', 'float'):
                yield t('cmp-%s-%s' % (cmp_, vn), [{'op': 'cmp', 'obj': 'a', 'cmp': cmp_, 'val': vals[vn]}])


# ------------------------------------------------------------------ longer lists: contents of any value, fixed positions
def SL(i=None, j=None, k=None):
    f = lambda x: N_ if x is None else ('int', x)  # noqa: E731
    return ('slice', f(i), f(j), f(k))


def few(ty, n, m=3, pre='x'):
    """n values of which only m are inputs: longer lists of objects repeat them"""
    if ty in INTLISTS:
        return elems(ty, n, pre), [V('%s%d' % (pre, i)) for i in range(n)]
    return elems(ty, min(m, n), pre), [V('%s%d' % (pre, i * 7 // 3 % min(m, n))) for i in range(n)]


def ks(n):
    """index ranges: any for short lists, around the ends and the middle for longer ones"""
    if n <= 20:
        return {'': ('int',) + IDX}
    return {'-%s' % nm: ('int', c - 2, c + 2) for nm, c in (('0', 0), ('mid', n // 2), ('end', n), ('neg', -n), ('nmid', -n // 2))}


def mk(ty, vs, dst='a', kind='list'):
    return [{'op': 'new', 'dst': dst, 'type': ty, 'args': [(kind, vs) if kind in ('list', 'tuple') else (kind, vs, {})] if vs else []}]


def large_concat(ty, N):
    for n in N:
        e, vs = few(ty, n)
        for k in (2, 3):
            yield sc('%s/big-mul%d/n%d' % (ty, k, n), e, mk(ty, vs) + [{'op': 'mul', 'obj': 'a', 'val': ('int', k), 'dst': 'c'}] + obs('c', 'a'))
        yield sc('%s/big-imul/n%d' % (ty, n), e, mk(ty, vs) + [{'op': 'imul', 'obj': 'a', 'val': ('int', 3), 'dst': 'c'}] + obs('a'))
        m = max(1, n // 3)
        e2, ws = few(ty, m, 2, 'z')
        yield sc('%s/big-add/n%d' % (ty, n), {**e, **e2}, mk(ty, vs) + mk(ty, ws, 'b') + [{'op': 'add', 'obj': 'a', 'val': V('b'), 'dst': 'c'},
                                                                                      {'op': 'add', 'obj': 'b', 'val': V('a'), 'dst': 'd'}] + obs('c', 'd', 'a', 'b'))
        yield sc('%s/big-addlist/n%d' % (ty, n), {**e, **e2}, mk(ty, vs) + [{'op': 'add', 'obj': 'a', 'val': ('list', ws)}] + obs('a'))


def large_reads(ty, N):
    for n in N:
        e, vs = few(ty, n)
        keys = [SL(), SL(None, None, -1), SL(1, n - 1), SL(n // 2, None), SL(None, None, 3), SL(n - 2, 0, -2), SL(-5, -1), SL(n, None, -n + 1 or 1)]
        yield sc('%s/big-slices/n%d' % (ty, n), e, mk(ty, vs) + [{'op': 'getitem', 'obj': 'a', 'key': k} for k in keys])
        yield sc('%s/big-reads/n%d' % (ty, n), e, mk(ty, vs) + C_('to_list') + [{'op': 'tolist', 'obj': 'a'}, {'op': 'len', 'obj': 'a'}] +
                 C_('copy', dst='b') + obs('b'))
        for q, d in ks(n).items():
            yield sc('%s/big-get%s/n%d' % (ty, q, n), {**e, 'k': d}, mk(ty, vs) + [{'op': 'getitem', 'obj': 'a', 'key': V('k')}])


def large_set(ty, N):
    for n in N:
        e, vs = few(ty, n)
        e.update(newval(ty))
        for q, d in ks(n).items():
            yield sc('%s/big-set%s/n%d' % (ty, q, n), {**e, 'k': d}, mk(ty, vs) + [
                {'op': 'setitem', 'obj': 'a', 'key': V('k'), 'val': V('y')}, {'op': 'getitem', 'obj': 'a', 'key': V('k')}] + obs('a'))
            yield sc('%s/big-del%s/n%d' % (ty, q, n), {**e, 'k': d}, mk(ty, vs) + [{'op': 'delitem', 'obj': 'a', 'key': V('k')}] + obs('a'))
        for q, (i, j) in enumerate(((1, n - 1), (0, n // 2), (n // 2, n), (n // 3, n // 3), (-3, None), (0, 0), (n, n))):
            for m in (0, 2, n, 2 * n):
                e2, ws = few(ty, m, 2, 'z')
                yield sc('%s/big-slice%d/n%d/m%d' % (ty, q, n, m), {**e, **e2}, mk(ty, vs) + [
                    {'op': 'setitem', 'obj': 'a', 'key': SL(i, j), 'val': ('list', ws)}] + obs('a'))
            yield sc('%s/big-slicesame%d/n%d' % (ty, q, n), e, mk(ty, vs) + mk(ty, vs[:n // 2 + 1], 'b') + [
                {'op': 'setitem', 'obj': 'a', 'key': SL(i, j), 'val': V('b')}, {'op': 'setitem', 'obj': 'b', 'key': SL(i, j), 'val': V('b')}] + obs('a', 'b'))
            yield sc('%s/big-delslice%d/n%d' % (ty, q, n), e, mk(ty, vs) + [{'op': 'delitem', 'obj': 'a', 'key': SL(i, j)}] + obs('a'))


def large_mut(ty, N):
    for n in N:
        e, vs = few(ty, n)
        e.update(newval(ty))
        e2, ws = few(ty, n, 2, 'z')
        for nm, v in (('list', ('list', ws)), ('tuple', ('tuple', ws)), ('it', ('iterable', ws, {})), ('hint', ('iterable', ws, {'hint': 1})),
                      ('same', V('b')), ('self', V('a')), ('raise', ('iterable', ws, {'end': 'raise'}))):
            pre = mk(ty, vs) + (mk(ty, ws, 'b') if nm == 'same' else [])
            inp = e if nm == 'self' else {**e, **e2}
            yield sc('%s/big-extend-%s/n%d' % (ty, nm, n), inp, pre + C_('extend', v) + obs('a'))
            yield sc('%s/big-iadd-%s/n%d' % (ty, nm, n), inp, pre + [{'op': 'iadd', 'obj': 'a', 'val': v}] + obs('a'))
        for m in ('insert', 'pop'):
            a = [V('k'), V('y')] if m == 'insert' else [V('k')]
            for q, d in ks(n).items():
                yield sc('%s/big-%s%s/n%d' % (ty, m, q, n), {**e, 'k': d}, mk(ty, vs) + C_(m, *a) + obs('a'))
        yield sc('%s/big-grow/n%d' % (ty, n), e, mk(ty, []) + [s for v in vs for s in C_('append', v)] + obs('a') + C_('pop') * (n // 2) + obs('a'))
        yield sc('%s/big-clear/n%d' % (ty, n), e, mk(ty, vs) + C_('clear') + obs('a') + C_('extend', ('list', vs[:3])) + obs('a'))
        if ty in INTLISTS:
            yield sc('%s/big-bad-extend/n%d' % (ty, n), e, mk(ty, vs) + C_('extend', ('list', vs[1:] + [('str', 'q')])) + obs('a'))
        else:
            yield sc('%s/big-none/n%d' % (ty, n), e, mk(ty, vs + [N_]) + C_('append', N_) + C_('reverse') + obs('a'))
        if not ty.endswith('LinkedList'):
            yield sc('%s/big-resize/n%d' % (ty, n), e, mk(ty, vs) + C_('resize', ('int', n + 5)) + obs('a') + C_('resize', ('int', n // 2)) + obs('a'))


def large_search(ty, N):
    for n in N:
        if ty in INTLISTS:
            bg = background(ty, n, n)
            vs = [V('x0') if i == n // 2 else V('x1') if i == n - 1 else ('int', bg[i]) for i in range(n)]
            e = {**elems(ty, 2), 'y': ('int',) + ANYINT}
        else:
            e, vs = few(ty, n, 4)
            e.update(newval(ty))
        b = mk(ty, vs)
        yield sc('%s/big-in/n%d' % (ty, n), e, b + [{'op': 'contains', 'obj': 'a', 'val': V('y')}])
        yield sc('%s/big-count/n%d' % (ty, n), e, b + C_('count', V('y')))
        yield sc('%s/big-index/n%d' % (ty, n), e, b + C_('index', V('y')))
        yield sc('%s/big-remove/n%d' % (ty, n), e, b + C_('remove', V('y')) + obs('a'))
        for i, j in ((1, n - 1), (n // 2, -1), (-n + 2, n), (-3, None)):
            yield sc('%s/big-index2/n%d/%d' % (ty, n, i), e, b + C_('index', V('y'), *([('int', i)] + ([('int', j)] if j is not None else []))))


def large_cmp(ty, N):
    for n in N:
        if ty in INTLISTS:
            bg = background(ty, n, 3 * n)
        for p in sorted({0, n // 2, n - 2, n - 1}):
            if ty in INTLISTS:
                vs = [V('x0') if i == p else ('int', bg[i]) for i in range(n)]
                ws = [V('z0') if i == p else ('int', bg[i]) for i in range(n)]
                e = {**elems(ty, 1), **elems(ty, 1, 'z')}
            else:
                vs = [V('x%d' % (2 if i == p else i % 2)) for i in range(n)]
                ws = [V('z0') if i == p else v for i, v in enumerate(vs)]
                e = {**elems(ty, 3), **elems(ty, 1, 'z')}
            ops = [{'op': 'cmp', 'obj': 'a', 'cmp': c, 'val': V('b')} for c in ('eq', 'ne', 'lt', 'le', 'gt', 'ge')]
            opl = [{'op': 'cmp', 'obj': 'a', 'cmp': c, 'val': ('list', ws)} for c in ('eq', 'ne', 'lt', 'le', 'gt', 'ge')]
            yield sc('%s/big-cmp@%d/n%d' % (ty, p, n), e, mk(ty, vs) + mk(ty, ws, 'b') + ops)
            yield sc('%s/big-cmplist@%d/n%d' % (ty, p, n), e, mk(ty, vs) + opl)
            for d, w in (('short', ws[:-1]), ('long', ws + ws[:1])):
                yield sc('%s/big-cmp-%s@%d/n%d' % (ty, d, p, n), e, mk(ty, vs) + mk(ty, w, 'b') + ops)


def large_iter(ty, N):
    for n in N:
        e, vs = few(ty, n)
        for op in ('iter', 'reversed'):
            yield sc('%s/big-%s/n%d' % (ty, op, n), e, mk(ty, vs) + [{'op': op, 'obj': 'a', 'dst': 'it'}] + [{'op': 'next', 'obj': 'it'}] * (n + 2))
            for m in ('append', 'insert0', 'pop0', 'set'):
                yield sc('%s/big-%s-%s/n%d' % (ty, op, m, n), {**e, **newval(ty)}, mk(ty, vs) + [{'op': op, 'obj': 'a', 'dst': 'it'}] +
                         [{'op': 'next', 'obj': 'it'}] * (n // 2) + MUT[m] + [{'op': 'next', 'obj': 'it'}] * 3 + MUT[m] + [{'op': 'tolist', 'obj': 'it'}])


def large_construct(ty, N):
    for n in N:
        e, vs = few(ty, n)
        for kind in ('list', 'tuple', 'iterable', 'seq'):
            yield sc('%s/big-new-%s/n%d' % (ty, kind, n), e, mk(ty, vs, kind=kind) + obs('a') + C_('append', vs[0] if vs else N_) + obs('a'))
        for other in ALL:
            if (other in INTLISTS) != (ty in INTLISTS):
                continue
            inp = {k: ('int',) + rng('IntArrayList') for k in e} if ty in INTLISTS else e
            yield sc('%s/big-new-from-%s/n%d' % (ty, other, n), inp, mk(other, vs, 'b') + [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [V('b')]}] + obs('a', 'b'))
        for cap in (1, n - 1, n, n + 1):
            yield sc('%s/big-new-cap%d/n%d' % (ty, cap, n), e, [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('list', vs), ('int', cap)]}] + obs('a'))
        if ty in INTLISTS:
            yield sc('%s/big-new-bad/n%d' % (ty, n), e, [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('list', vs[1:] + [('str', 'q')])]}])


def large_range(ty, N):
    if ty not in INTLISTS:
        return
    for n in N:
        for c in (1, -1, 3):
            for lo in (7, -n // 2):
                yield sc('%s/big-range/n%d/%d/%d' % (ty, n, c, lo), {},
                         [{'op': 'callstatic', 'type': ty, 'name': 'from_range', 'args': [('int', lo), ('int', lo + c * n), ('int', c)], 'dst': 'l'}] + obs('l'))
        yield sc('%s/big-range1/n%d' % (ty, n), {}, [{'op': 'callstatic', 'type': ty, 'name': 'from_range', 'args': [('int', n)], 'dst': 'l'}] + obs('l'))


def large_buffer(ty, N):
    for n in N:
        e, vs = few(ty, n)
        e.update(newval(ty))
        yield sc('%s/big-view/n%d' % (ty, n), e, mk(ty, vs) + [{'op': 'view', 'obj': 'a', 'dst': 'w', 'flags': ('int', 0x11c)}, {'op': 'vcheck', 'view': 'w'},
                                                             {'op': 'vset', 'view': 'w', 'i': n // 2, 'val': V('y')}] + C_('reverse') + [{'op': 'vcheck', 'view': 'w'}] +
                 C_('append', V('y')) + [{'op': 'vcheck', 'view': 'w'}, {'op': 'vrel', 'view': 'w'}] + C_('append', V('y')) + obs('a'))


def large_repr(ty, N):
    for n in N:
        if ty in INTLISTS:
            bg = background(ty, n, 5 * n)
            vs = [V('x0') if i == n - 2 else ('int', bg[i]) for i in range(n)]
            e = {'x0': ('int', -101, 101)}
        else:
            e, vs = few(ty, n, 4)
        yield sc('%s/big-repr/n%d' % (ty, n), e, mk(ty, vs) + [{'op': 'repr', 'obj': 'a'}, {'op': 'str', 'obj': 'a'}])


def large_sort(ty, N, seeds=(0,), keys=True):
    """python ints in any list, most of them fixed, sorted with and without a key: long runs, merges and galloping"""
    for n in N:
        for sd in seeds:
            bg = background('IntArrayList', n, sd + 31)
            if sd % 3 == 1:
                bg = sorted(bg[:n // 2]) + sorted(bg[n // 2:])
            if sd % 3 == 2:
                bg = sorted(bg, reverse=True)
            p = (n * (sd + 1) // 3 + sd) % n
            vs = [V('x0') if i == p else ('int', bg[i]) for i in range(n)]
            e = {'x0': ('int',) + rng('IntArrayList')}
            for rev in (False, True):
                kw = {'reverse': ('bool', True)} if rev else {}
                if ty not in INTLISTS:
                    yield sc('%s/big-sort%s/n%d/%d' % (ty, '-rev' if rev else '', n, sd), e, mk(ty, vs) + C_('sort', kw=kw) + obs('a'))
                if keys:
                    for k in ('ident', 'half', 'const'):
                        yield sc('%s/big-sortkey-%s%s/n%d/%d' % (ty, k, '-rev' if rev else '', n, sd), e,
                                 mk(ty, vs) + C_('sort', kw=dict(kw, key=fn(k))) + obs('a'))
