"""Histories on lists of hundreds or thousands of elements: fixed contents except for a few free elements and positions."""
from .scen import V, C_, N_, SL, elems, sc, obs, mk, fn, background, rng, ALL, INTLISTS


def hv(ty, n, m=2, pre='x', seed=0, kind=None):
    """(inputs, n values): m of them free"""
    bg = background(ty if ty in INTLISTS else 'IntArrayList', n, seed)
    vs = [('int', v) for v in bg]
    e = {}
    for i in range(m):
        vs[(n // 3, n - 2, n // 2)[i]] = V('%s%d' % (pre, i))
        e['%s%d' % (pre, i)] = ('int',) + (rng(ty) if ty in INTLISTS else rng('IntArrayList'))
    return e, vs


def near(*cs):
    return [(c, ('int', c - 1, c + 1)) for c in cs]


def y_(ty):
    return {'y': ('int',) + rng(ty if ty in INTLISTS else 'IntArrayList')}


def huge_reads(ty, N):
    for n in N:
        e, vs = hv(ty, n)
        b = mk(ty, vs)
        yield sc('%s/huge-reads/n%d' % (ty, n), e, b + C_('to_list') + [{'op': 'tolist', 'obj': 'a'}, {'op': 'len', 'obj': 'a'}] + C_('copy', dst='b') + obs('b'))
        e, vs = hv(ty, lk(ty, n))
        b, n = mk(ty, vs), lk(ty, n)
        yield sc('%s/huge-slices/n%d' % (ty, n), e, b + [{'op': 'getitem', 'obj': 'a', 'key': k} for k in (
            SL(), SL(None, None, -1), SL(1, n - 1), SL(n // 2, None), SL(None, None, 7), SL(-5, None), SL(n - 2, 0, -3))])
        for c, d in near(0, n // 2, n, -n, 255):
            yield sc('%s/huge-get@%d/n%d' % (ty, c, n), {**e, 'k': d}, b + [{'op': 'getitem', 'obj': 'a', 'key': V('k')}])


def huge_set(ty, N):
    for n in N:
        e, vs = hv(ty, n)
        e.update(y_(ty))
        b = mk(ty, vs)
        for c, d in near(n // 2, n - 2, -n + 1):
            yield sc('%s/huge-set@%d/n%d' % (ty, c, n), {**e, 'k': d}, b + [
                {'op': 'setitem', 'obj': 'a', 'key': V('k'), 'val': V('y')}] + obs('a') + [{'op': 'delitem', 'obj': 'a', 'key': V('k')}] + obs('a'))
        for q, (i, j) in enumerate(((1, n - 1), (n // 2, None), (n // 3, n // 3), (0, 0))):
            for m in (0, 2, n // 4, n + n // 3):
                _, ws = hv(ty, m, 0, seed=3)
                yield sc('%s/huge-slice%d/n%d/m%d' % (ty, q, n, m), e, b + [{'op': 'setitem', 'obj': 'a', 'key': SL(i, j), 'val': ('list', ws)}] + obs('a'))
            yield sc('%s/huge-delslice%d/n%d' % (ty, q, n), e, b + [{'op': 'delitem', 'obj': 'a', 'key': SL(i, j)}] + obs('a') + [
                {'op': 'setitem', 'obj': 'a', 'key': SL(), 'val': V('a')}] + obs('a'))


def huge_mut(ty, N):
    for n in N:
        e, vs = hv(ty, n)
        e.update(y_(ty))
        b = mk(ty, vs)
        _, ws = hv(ty, n // 2 + 3, 0, seed=4)
        for nm, v in (('list', ('list', ws)), ('tuple', ('tuple', ws)), ('it', ('iterable', ws, {})), ('hint', ('iterable', ws, {'hint': 1})), ('same', V('b')), ('self', V('a'))):
            pre = b + (mk(ty, ws, 'b') if nm == 'same' else [])
            yield sc('%s/huge-extend-%s/n%d' % (ty, nm, n), e, pre + C_('extend', v) + obs('a') + [{'op': 'iadd', 'obj': 'a', 'val': v}] + obs('a'))
        for c, d in near(0, n // 2, n - 1):
            yield sc('%s/huge-insert@%d/n%d' % (ty, c, n), {**e, 'k': d}, b + C_('insert', V('k'), V('y')) + obs('a') + C_('pop', V('k')) + obs('a'))
        yield sc('%s/huge-grow/n%d' % (ty, n), e, mk(ty, []) + [s for v in vs for s in C_('append', v)] + obs('a') + C_('pop') * (n - 2) + obs('a') +
                 C_('append', V('y')) + obs('a'))
        yield sc('%s/huge-front/n%d' % (ty, n), e, mk(ty, []) + [s for v in vs[:300] for s in C_('insert', ('int', 0), v)] + obs('a') +
                 C_('pop', ('int', 0)) * 290 + obs('a'))
        yield sc('%s/huge-clear/n%d' % (ty, n), e, b + C_('clear') + obs('a') + C_('extend', ('list', ws[:3])) + obs('a') + C_('extend', ('list', ws)) + obs('a'))
        yield sc('%s/huge-reverse/n%d' % (ty, n), e, b + C_('reverse') + obs('a') + C_('append', V('y')) + C_('reverse') + obs('a'))
        yield sc('%s/huge-remove/n%d' % (ty, n), e, b + C_('remove', vs[5]) + C_('remove', vs[n // 2]) + obs('a'))
        if not ty.endswith('LinkedList'):
            yield sc('%s/huge-resize/n%d' % (ty, n), e, b + C_('resize', ('int', n + 70)) + obs('a') + C_('resize', ('int', n // 2)) + C_('append', V('y')) + obs('a'))


def huge_search(ty, N):
    """all elements differ from the value looked for, or all but one"""
    for n in N:
        y = ('int', 78)
        for q, p in (('mid', n // 2), ('last', n - 1)):
            vs = [('int', 1000 + i) for i in range(n)]
            vs[p] = V('x0')
            e = {'x0': ('int',) + rng(ty if ty in INTLISTS else 'IntArrayList')}
            b = mk(ty, vs)
            yield sc('%s/huge-in-%s/n%d' % (ty, q, n), e, b + [{'op': 'contains', 'obj': 'a', 'val': y}] + C_('index', y))
            yield sc('%s/huge-count-%s/n%d' % (ty, q, n), e, b + C_('count', y))
            yield sc('%s/huge-remove-%s/n%d' % (ty, q, n), e, b + C_('remove', y) + obs('a'))
            yield sc('%s/huge-index2-%s/n%d' % (ty, q, n), {**e, 'k': ('int', p - 1, p + 1)}, b + C_('index', y, V('k')))


def lk(ty, n):
    """linked lists walk to every position"""
    return min(n, 300) if ty.endswith('LinkedList') else n


def huge_cmp(ty, N):
    for n in sorted({lk(ty, n) for n in N}):
        vs = [('int', v) for v in background('IntArrayList', n, 3)]
        for p in (n // 2, n - 1):
            a, w = list(vs), list(vs)
            a[p], w[p] = V('x0'), V('z0')
            e = {k: ('int',) + rng('IntArrayList') for k in ('x0', 'z0')}
            for nm, v, pre in (('same', V('b'), mk(ty, w, 'b')), ('list', ('list', w), []), ('short', V('b'), mk(ty, w[:-1], 'b')),
                               ('long', ('list', w + w[:1]), [])):
                yield sc('%s/huge-cmp-%s@%d/n%d' % (ty, nm, p, n), e, mk(ty, a) + pre + [
                    {'op': 'cmp', 'obj': 'a', 'cmp': c, 'val': v} for c in (('eq', 'lt', 'ge') if nm == 'same' else ('ne', 'gt', 'le'))])


def huge_iter(ty, N):
    for n in N:
        e, vs = hv(ty, n)
        b = mk(ty, vs)
        for op in ('iter', 'reversed'):
            yield sc('%s/huge-%s/n%d' % (ty, op, n), {**e, **y_(ty)}, b + [{'op': op, 'obj': 'a', 'dst': 'it'}, {'op': 'next', 'obj': 'it'},
                     {'op': 'tolist', 'obj': 'it'}, {'op': 'next', 'obj': 'it'}] + C_('append', V('y')) + [{'op': 'next', 'obj': 'it'}])
            yield sc('%s/huge-%s-shrink/n%d' % (ty, op, n), e, b + [{'op': op, 'obj': 'a', 'dst': 'it'}] + [{'op': 'next', 'obj': 'it'}] * 3 +
                     [{'op': 'delitem', 'obj': 'a', 'key': SL(n // 2, None)}, {'op': 'next', 'obj': 'it'}, {'op': 'tolist', 'obj': 'it'}])


def huge_construct(ty, N):
    for n in N:
        e, vs = hv(ty, n)
        for kind in ('list', 'tuple', 'iterable', 'seq'):
            yield sc('%s/huge-new-%s/n%d' % (ty, kind, n), e, mk(ty, vs, kind=kind) + obs('a') + C_('append', vs[0]) + obs('a'))
        small = {k: ('int',) + rng('IntArrayList') for k in e}
        _, us = hv('IntArrayList', n)
        for other in ALL:
            if (other in INTLISTS) == (ty in INTLISTS):
                yield sc('%s/huge-new-from-%s/n%d' % (ty, other, n), small, mk(other, us, 'b') + [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [V('b')]}] +
                         obs('a') + C_('clear') + obs('a', 'b'))
        if not ty.endswith('LinkedList'):
            yield sc('%s/huge-new-cap/n%d' % (ty, n), e, [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [('list', vs), ('int', n // 2)]}] + obs('a'))


def huge_range(ty, N):
    for n in N:
        for c in (1, -1, 5):
            yield sc('%s/huge-range/n%d/%d' % (ty, n, c), {}, [{'op': 'callstatic', 'type': ty, 'name': 'from_range',
                     'args': [('int', -n // 2), ('int', -n // 2 + c * n), ('int', c)], 'dst': 'l'}] + obs('l'))


def huge_concat(ty, N):
    for n in N:
        e, vs = hv(ty, n)
        b = mk(ty, vs)
        yield sc('%s/huge-mul/n%d' % (ty, n), e, b + [{'op': 'mul', 'obj': 'a', 'val': ('int', 2), 'dst': 'c'}] + obs('c', 'a'))
        yield sc('%s/huge-imul/n%d' % (ty, n), e, b + [{'op': 'imul', 'obj': 'a', 'val': ('int', 3), 'dst': 'c'}] + obs('a'))
        yield sc('%s/huge-manymul/n%d' % (ty, n), e, mk(ty, vs[n // 3:n // 3 + 1]) + [{'op': 'imul', 'obj': 'a', 'val': ('int', n), 'dst': 'c'}] + obs('a'))
        yield sc('%s/huge-add/n%d' % (ty, n), e, b + mk(ty, vs[:n // 2], 'b') + [{'op': 'add', 'obj': 'a', 'val': V('b'), 'dst': 'c'}] + obs('c') +
                 [{'op': 'add', 'obj': 'b', 'val': V('a'), 'dst': 'd'}] + obs('d', 'a', 'b'))


def huge_repr(ty, N):
    for n in N:
        vs = [('int', v) for v in background('IntArrayList', n, 9)]
        if ty in INTLISTS:
            vs[n - 2] = V('x0')
        yield sc('%s/huge-repr/n%d' % (ty, n), {'x0': ('int', 95, 101)} if ty in INTLISTS else {}, mk(ty, vs) + [{'op': 'repr', 'obj': 'a'}])


def huge_sort(ty, N, fixed=False):
    """one free element that moves within a small gap of the other values (none with fixed)"""
    for n in N:
        for sd in (0, 1, 2):
            bg = background('IntArrayList', n, sd + 51)
            bg = [v // 8 * 8 for v in bg]
            if sd == 1:
                bg = sorted(bg[:n // 2]) + sorted(bg[n // 2:], reverse=True)
            if sd == 2:
                bg = [v for i in range(n) for v in ((i * 7919) % 97 * 8,)]
            p = (n * (sd + 1) // 4) % n
            g = bg[(p + n // 2) % n]
            g = min(max(g, -(1 << 30)), 1 << 30)
            if fixed:
                bg[p] = g + 1
            vs = [V('x0') if i == p and not fixed else ('int', bg[i]) for i in range(n)]
            for rev in (False, True):
                kw = {'reverse': ('bool', True)} if rev else {}
                yield sc('%s/huge-sort%s/n%d/%d' % (ty, '-rev' if rev else '', n, sd), {} if fixed else {'x0': ('int', g - 1, g + 1)}, mk(ty, vs) + C_('sort', kw=kw) + obs('a'))
                if not rev and n < 5000:
                    yield sc('%s/huge-sortkey/n%d/%d' % (ty, n, sd), {} if fixed else {'x0': ('int', g - 1, g + 1)}, mk(ty, vs) + C_('sort', kw=dict(kw, key=fn('half'))) + obs('a'))


def huge_buffer(ty, N):
    for n in N:
        e, vs = hv(ty, n)
        e.update(y_(ty))
        yield sc('%s/huge-view/n%d' % (ty, n), e, mk(ty, vs) + [{'op': 'view', 'obj': 'a', 'dst': 'w', 'flags': ('int', 0x11c)}, {'op': 'vcheck', 'view': 'w'},
                 {'op': 'vset', 'view': 'w', 'i': n // 2, 'val': V('y')}] + C_('reverse') + [{'op': 'vcheck', 'view': 'w'}] +
                 C_('append', V('y')) + [{'op': 'vcheck', 'view': 'w'}, {'op': 'vrel', 'view': 'w'}] + C_('append', V('y')) + obs('a'))


def chars(*cs):
    return ('chars', [ord(c) for c in cs])


def kind_sets(n):
    """name -> (inputs, n values) of values that the sort treats specially"""
    ints = {'i%d' % i: ('int', -9, 9) for i in range(n)}
    cs = lambda i, m: ['c%d_%d' % (i, j) for j in range(m)]
    cin = lambda ls: {c: ('int', 0, 127) for i, m in enumerate(ls) for c in cs(i, m)}
    yield 'float', {'d%d' % i: ('bits', 64) for i in range(n)}, [('dbl', 'd%d' % i) for i in range(n)]
    for nm, ls in (('text', [2] * n), ('mixlen', [(i * 2 + 1) % 4 for i in range(n)])):
        yield nm, cin(ls), [('chars', cs(i, m)) for i, m in enumerate(ls)]
    ls = [2] * (n - 1)
    yield 'latin', cin(ls), [('chars', cs(i, m)) for i, m in enumerate(ls)] + [chars('\x80', '\xff')]
    yield 'ucs2', cin(ls), [('chars', cs(i, m)) for i, m in enumerate(ls)] + [chars('\u0100', 'b')]
    yield 'ucs4', cin(ls), [chars('\U00010000')] + [('chars', cs(i, m)) for i, m in enumerate(ls)]
    two = lambda vs, second=True: [('tuple', [v] + ([V('i%d' % i)] if second else [])) for i, v in enumerate(vs)]
    yield 'tup-float', {**ints, **{'d%d' % i: ('bits', 64) for i in range(n)}}, two([('dbl', 'd%d' % i) for i in range(n)])
    yield 'tup-text', {**ints, **cin([1] * n)}, two([('chars', cs(i, 1)) for i in range(n)])
    yield 'tup-int', {**ints, **{'j%d' % i: ('int', (1 << 30) - 9, (1 << 30) + 9) if i == 1 else ('int', -9, 9) for i in range(n)}}, two([V('j%d' % i) for i in range(n)])
    yield 'tup-one', ints, [('tuple', [V('i%d' % i)]) for i in range(n)]
    yield 'tup-tup', {**ints, 'j0': ('int', -5, 5), 'j1': ('int', -5, 5)}, two([('tuple', [V('j%d' % (i % 2))]) for i in range(n)])
    yield 'tup-obj', {**ints, **{'o%d' % i: ('obj',) for i in range(n)}}, two([V('o%d' % i) for i in range(n)])
    yield 'tup-len', ints, [('tuple', [V('i%d' % j) for j in range(i)]) for i in range(n)]
    yield 'tup-empty', ints, [('tuple', [V('i%d' % i)] if i else []) for i in range(n)]
    yield 'tup-mix', {**ints, 'd0': ('bits', 64)}, two([('dbl', 'd0')] + [('str', 'q')] * (n - 1))
    if n > 1:
        yield 'mix-str', ints, [('str', 'q')] + [V('i%d' % i) for i in range(1, n)]
        yield 'mix-tup', ints, [V('i%d' % i) for i in range(n - 1)] + [('tuple', [V('i0')])]
        yield 'mix-none', {'d%d' % i: ('bits', 64) for i in range(n)}, [('dbl', 'd%d' % i) for i in range(n - 1)] + [N_]
        yield 'nones', {}, [N_] * n


def sort_kinds(ty, N):
    """floats, strings and tuples, for which the sort has comparisons of its own"""
    for n in N:
        for nm, e, vs in kind_sets(n):
            for rev in (False, True):
                kw = {'reverse': ('bool', True)} if rev else {}
                r = '-rev' if rev else ''
                if ty not in INTLISTS:
                    yield sc('%s/sort-%s%s/n%d' % (ty, nm, r, n), e, mk(ty, vs) + C_('sort', kw=kw) + obs('a'))
                    if n <= 3 or nm in ('float', 'text'):
                        ke = {**{k: v for k, v in e.items()}, **{'x%d' % i: ('obj',) for i in range(n)}}
                        yield sc('%s/sortkey-%s%s/n%d' % (ty, nm, r, n), ke, [{'op': 'let', 'dst': 'k_x%d' % i, 'val': v} for i, v in enumerate(vs)] +
                                 mk(ty, [V('x%d' % i) for i in range(n)]) + C_('sort', kw=dict(kw, key=fn('table', pre='k_'))) + obs('a'))
        if ty in INTLISTS:
            for rev in (False, True):
                kw = {'reverse': ('bool', True)} if rev else {}
                yield sc('%s/sortkey-pair%s/n%d' % (ty, '-rev' if rev else '', n), elems(ty, n) if n < 2 else {'x%d' % i: ('int', -99, 99) for i in range(n)},
                         mk(ty, [V('x%d' % i) for i in range(n)]) + C_('sort', kw=dict(kw, key=fn('pair'))) + obs('a'))


def huge_sortkinds(ty, N):
    for n in N:
        bg = background('IntArrayList', n, 3)
        bg = bg[:n // 2] + sorted(bg[n // 2:])
        for k in ('dbl', 'text', 'pair'):
            for rev in (False, True):
                kw = {'reverse': ('bool', True)} if rev else {}
                yield sc('%s/huge-sortkey-%s%s/n%d' % (ty, k, '-rev' if rev else '', n), {}, mk(ty, [('int', v) for v in bg]) + C_('sort', kw=dict(kw, key=fn(k))) + obs('a'))


SUBFAMS = ('reads', 'setitem', 'setslice', 'mutators', 'search', 'compare', 'concat', 'sort_keyed', 'iters', 'construct', 'resize', 'rendering')


def with_sub(s, which):
    """the same history on instances of a subclass (all of them, all but the first or the first only)"""
    k, steps = 0, []
    for t in s['steps']:
        if t['op'] == 'new' and t['type'] in ALL:
            if which == 'all' or (k == 0) == (which == 'first'):
                t = dict(t, sub=True)
            k += 1
        steps.append(t)
    return k, dict(s, steps=steps, limit=200000, name=s['name'].replace('/', '/sub-%s-' % which, 1))


def subclassed(ty, N, fams=SUBFAMS):
    from . import scen, scen2
    for f in fams:
        for s in (getattr(scen, f, None) or getattr(scen2, f))(ty, N):
            k, t = with_sub(s, 'all')
            if k:
                yield t
            if k > 1:
                yield with_sub(s, 'first')[1]
                yield with_sub(s, 'rest')[1]
    for n in N:
        e = elems(ty, n, 'z')
        raw = [{'op': 'new', 'dst': 'a', 'type': ty, 'args': [], 'sub': 'raw'}]
        other = {'op': 'new', 'dst': 'b', 'type': ty, 'args': [('list', [V('z%d' % i) for i in range(n)])]}
        for nm, st in (('extend', C_('extend', ('list', [V('z%d' % i) for i in range(n)]))), ('cmp', [other, {'op': 'cmp', 'obj': 'a', 'cmp': 'lt', 'val': V('b')}]),
                       ('append', [x for i in range(n) for x in C_('append', V('z%d' % i))]), ('add', [other, {'op': 'add', 'obj': 'a', 'val': V('b'), 'dst': 'c'}] + obs('c')),
                       ('iter', [{'op': 'iter', 'obj': 'a', 'dst': 'it'}, {'op': 'next', 'obj': 'it'}]), ('sort', C_('sort') + C_('reverse') + C_('clear'))):
            yield sc('%s/sub-raw-%s/n%d' % (ty, nm, n), e, raw + st + obs('a'))
