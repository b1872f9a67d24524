"""More scenario generators: other threads, failing allocations, raw memory, feature detection."""
from .scen import (V, C_, N_, FULL, MUT, INTLISTS, elems, new_list, zero, sc, obs, newval, op_table, few, mk, rename)


def other_ops(ty, n):
    """operations beyond op_table: name -> steps on list a (n elements)"""
    y = V('y')
    t = {'newlist': [{'op': 'new', 'dst': 'q', 'type': ty, 'args': [('list', [y] * n)]}],
         'newtuple': [{'op': 'new', 'dst': 'q', 'type': ty, 'args': [('tuple', [y] * n)]}],
         'newit': [{'op': 'new', 'dst': 'q', 'type': ty, 'args': [('iterable', [y] * min(n, 12), {})]}],
         'newsame': [{'op': 'new', 'dst': 'q', 'type': ty, 'args': [V('a')]}],
         'repr': [{'op': 'repr', 'obj': 'a'}], 'tolist': C_('to_list'), 'list': [{'op': 'tolist', 'obj': 'a'}],
         'sortkey': C_('sort', kw={'key': ('fn', {'key': 'none'})}), 'sortrev': C_('sort', kw={'reverse': ('bool', True)}),
         'eqlist': [{'op': 'cmp', 'obj': 'a', 'cmp': 'eq', 'val': ('list', [y] * n)}],
         'eqself': [{'op': 'cmp', 'obj': 'a', 'cmp': 'eq', 'val': V('b')}],
         'ltsame': [{'op': 'cmp', 'obj': 'a', 'cmp': 'lt', 'val': V('b')}],
         'gtlist': [{'op': 'cmp', 'obj': 'a', 'cmp': 'gt', 'val': ('list', [y] * n)}],
         'addlist': [{'op': 'add', 'obj': 'a', 'val': ('list', [y, y])}], 'iaddself': [{'op': 'iadd', 'obj': 'a', 'val': V('a')}],
         'extsame': C_('extend', V('b')), 'mul': [{'op': 'mul', 'obj': 'a', 'val': ('int', 3)}],
         'setsame': [{'op': 'setitem', 'obj': 'a', 'key': ('slice', ('int', 0), ('int', 1), N_), 'val': V('b')}],
         'setall': [{'op': 'setitem', 'obj': 'a', 'key': FULL, 'val': ('list', [y] * (n + 5))}],
         'extbig': C_('extend', ('list', [y] * (n + 9))), 'exttuple': C_('extend', ('tuple', [y] * 5)),
         'getall': [{'op': 'getitem', 'obj': 'a', 'key': FULL}],
         'get2': [{'op': 'getitem', 'obj': 'a', 'key': ('slice', N_, N_, ('int', 2))}],
         'set2': [{'op': 'setitem', 'obj': 'a', 'key': ('slice', N_, N_, ('int', 2)), 'val': ('list', [y] * ((n + 1) // 2))}],
         'iternext': [{'op': 'iter', 'obj': 'a', 'dst': 'it'}] + [{'op': 'next', 'obj': 'it'}] * 3,
         'revnext': [{'op': 'reversed', 'obj': 'a', 'dst': 'it'}] + [{'op': 'next', 'obj': 'it'}] * 3}
    if ty in INTLISTS:
        t['range'] = [{'op': 'callstatic', 'type': ty, 'name': 'from_range', 'args': [('int', n + 40)], 'dst': 'q'}]
        t['range3'] = [{'op': 'callstatic', 'type': ty, 'name': 'from_range', 'args': [('int', 5), ('int', -n - 40), ('int', -2)], 'dst': 'q'}]
    if not ty.endswith('LinkedList'):
        t['newcap'] = [{'op': 'new', 'dst': 'q', 'type': ty, 'args': [('list', [y] * n), ('int', n + 7)]}]
        t['grow'] = C_('resize', ('int', n + 70))
    return t


MUTS = ('clear', 'grow', 'pop', 'clear+append', 'delall')


def tame(x, n):
    """fixed positions instead of free ones"""
    if isinstance(x, dict):
        return {a: tame(b, n) for a, b in x.items()}
    if isinstance(x, (list, tuple)):
        if tuple(x) == ('v', 'k'):
            return ('int', 1)
        return type(x)(tame(i, n) for i in x)
    return x


def all_ops(ty, n):
    t = {k: s for k, (s, _) in op_table(ty).items()}
    t.update(other_ops(ty, n))
    return t


def other_list(ty, n, st):
    return [{'op': 'new', 'dst': 'b', 'type': ty, 'args': [('list', [V('y')] * n)]}] if "('v', 'b')" in str(st) else []


def threads(ty, N, which=None):
    """another thread changes the list wherever an operation lets go of the interpreter lock"""
    alts = [MUT[m] for m in MUTS] + [[]]
    pick = {'pick': ('int', 0, len(alts) - 1), 'pick2': ('int', 0, len(alts) - 1)}
    for n in N:
        for name, st in all_ops(ty, n).items():
            if which and name not in which or name == 'count' and n > 40:
                continue
            if n <= 4:
                e = {**elems(ty, n), **newval(ty), 'k': ('int', -1, 1)}
                if name == 'repr' and ty in INTLISTS:
                    e.update({k: ('int', -9, 9) for k in e})
                base = new_list(ty, n)
            else:
                st = tame(st, n)
                if ty in INTLISTS:
                    e = {'x0': ('int', -9, 9), **newval(ty)}
                    e['y'] = ('int', 900, 990)
                    base = mk(ty, [('int', i * 37 % 101 + 10) for i in range(n)])
                else:
                    e, vs = few(ty, n, 2)
                    e.update(newval(ty))
                    base = mk(ty, vs)
            yield sc('%s/th-%s/n%d' % (ty, name, n), {**e, **pick}, base + other_list(ty, n, st) + st + obs('a') + C_('append', V('y')) +
                     obs('a'), leaks=False, events=[{'on': 'release', 'at': 0, 'do': {'pick': 'pick', 'of': alts}},
                                                    {'on': 'restore', 'at': 0, 'do': {'pick': 'pick2', 'of': alts}}])


def faulty(ty, N):
    """one allocation fails during the operation"""
    for n in N:
        for name, st in all_ops(ty, n).items():
            e = {**elems(ty, max(n, 1)), **newval(ty), 'k': ('int', -1, 1)}
            if name == 'repr' and ty in INTLISTS:
                e.update({k: ('int', -9, 9) for k in e})
            st = [dict(s, onfault='forget') for s in st if s['op'] != 'obs']
            for how in ('list', 'append') if n == N[-1] else ('list',):
                yield sc('%s/oom-%s/n%d/%s' % (ty, name, n, how), e, new_list(ty, n, how=how) + other_list(ty, n, st) +
                         [{'op': 'faults', 'on': 1}] + st + [{'op': 'faults', 'on': 0}] + obs('a') + C_('append', V('y')) +
                         [{'op': 'tolist', 'obj': 'a'}] + obs('a'), faults=1)


def large_faulty(ty, N):
    """one allocation fails during an operation on a longer list"""
    for n in N:
        for name, st in all_ops(ty, n).items():
            st = [dict(s, onfault='forget') for s in tame(st, n) if s['op'] != 'obs']
            if ty in INTLISTS:
                e = {'x0': ('int', -9, 9), 'y': ('int', 900, 990)}
                base = mk(ty, [('int', i * 37 % 101 + 10) for i in range(n)])
            else:
                e, vs = few(ty, n, 2)
                e.update(newval(ty))
                base = mk(ty, vs)
            yield sc('%s/oomL-%s/n%d' % (ty, name, n), e, base + other_list(ty, n, st) + [{'op': 'faults', 'on': 1}] + st +
                     [{'op': 'faults', 'on': 0}] + obs('a') + C_('append', V('y')) + [{'op': 'tolist', 'obj': 'a'}] + obs('a'), faults=1)


# ------------------------------------------------------------------ raw memory
G = 64  # bytes on each side that must stay untouched


def bs(n, pre='b'):
    return {'%s%d' % (pre, i): ('bits', 8) for i in range(n)}


def bv(n, pre='b'):
    return [V('%s%d' % (pre, i)) for i in range(n)]


def block(name, n, pre, guard=G):
    """a block of n free bytes between two rows of fixed ones"""
    return {'op': 'mem', 'name': name, 'bytes': [(7 * i + 1) & 255 for i in range(guard)] + bv(n, pre) +
            [(5 * i + 3) & 255 for i in range(guard)]}


def U(name, *args, **kw):
    return {'op': 'call', 'obj': 'u', 'name': name, 'args': list(args), **kw}


def newu(cls='Unsafe'):
    return [{'op': 'new', 'dst': 'u', 'type': cls, 'args': []}]


def ptr(m, off=G):
    return ('ptr', m, off)


def I(n):
    return ('int', n)


def mchk(*ms):
    return [{'op': 'mcheck', 'mem': m} for m in ms]


BADS = {'none': N_, 'str': ('str', '1'), 'float': ('float', 3.0), 'neg': I(-1), 'neg63': I(-(1 << 63) - 1), 'big': I(1 << 64), 'huge': I(1 << 70),
        'mhuge': I(-(1 << 70)), 'bytes': ('bytes', [1, 2]), 'list': ('list', [])}


def raw_copy(_, N):
    """reading, writing, copying and filling"""
    for n in N:
        for d in (0, 1, 7):
            t = 'raw/%%s/n%d/off%d' % (n, d)
            src, dst = block('p', n + d, 'b'), block('q', n + d, 'c')
            two = {**bs(n + d), **bs(n + d, 'c')}
            yield sc(t % 'get', bs(n + d), newu() + [src, U('get', ptr('p', G + d), I(n))] + mchk('p'))
            yield sc(t % 'memcpy', two, newu() + [src, dst, U('memcpy', ptr('p', G + d), ptr('q'), I(n))] + mchk('p', 'q') +
                     [U('get', ptr('q'), I(n))])
            yield sc(t % 'memcpy2', two, newu() + [src, dst, U('memcpy', ptr('p'), ptr('q', G + d), I(n))] + mchk('p', 'q'))
            yield sc(t % 'set', two, newu() + [dst, U('set', ptr('q', G + d), ('bytes', bv(n)))] + mchk('q') + [U('get', ptr('q', G + d), I(n))])
            yield sc(t % 'memset', {**bs(n + d, 'c'), 'v': ('int', -(1 << 66), 1 << 66)},
                     newu() + [dst, U('memset', ptr('q', G + d), V('v'), I(n))] + mchk('q'))
        if n and n <= 12:
            sz = {'n': ('int', 0, n)}
            yield sc('raw/get-anysize/n%d' % n, {**bs(n), **sz}, newu() + [block('p', n, 'b'), U('get', ptr('p'), V('n'))] + mchk('p'))
            yield sc('raw/memcpy-anysize/n%d' % n, {**bs(n), **bs(n, 'c'), **sz},
                     newu() + [block('p', n, 'b'), block('q', n, 'c'), U('memcpy', ptr('p'), ptr('q'), V('n'))] + mchk('p', 'q'))
            yield sc('raw/memset-anysize/n%d' % n, {**bs(n, 'c'), 'v': ('int', -300, 300), **sz},
                     newu() + [block('q', n, 'c'), U('memset', ptr('q'), V('v'), V('n'))] + mchk('q'))


def raw_alloc(_, N):
    """blocks of every size: fresh, large enough, separate, kept by realloc, released once"""
    for n in N:
        fill = [U('set', ptr('p', 0), ('bytes', bv(n)))] + mchk('p')
        for faults in (0, 1):
            kw = {'faults': 1, 'fault_only': ('malloc', 'calloc', 'realloc', 'aligned_alloc')} if faults else {}
            on = [{'op': 'faults', 'on': 1}] if faults else []
            off = [{'op': 'faults', 'on': 0}] if faults else []
            t = 'rawalloc/%%s/n%d%s' % (n, '/oom' if faults else '')

            def A(mk_, *rest):
                """allocate under a possible failure, then use the block"""
                return newu() + on + [mk_] + off + [s if s['op'] == 'mcheck' else dict(s, needmem='p') for s in rest]
            yield sc(t % 'malloc', bs(n), A(U('malloc', I(n), mdst='p'), *fill, U('get', ptr('p', 0), I(n)), U('free', ptr('p', 0))), **kw)
            for a, b in {(1, n), (n, 1), (8, n // 8), (n, 0), (0, n)}:
                k = a * b
                yield sc(t % ('calloc-%dx%d' % (a, b)), bs(k), A(
                    U('calloc', I(a), I(b), mdst='p'), *mchk('p'), U('get', ptr('p', 0), I(k)),
                    U('set', ptr('p', 0), ('bytes', bv(k))), *mchk('p'), U('free', ptr('p', 0))), **kw)
            for al in (1, 2, 8, 16, 32, 64, 256, 4096):
                k = (n + al - 1) // al * al
                if k > 300 and k > 2 * n:
                    k = al
                if k > 300:
                    body = [U('set', ptr('p', 0), ('bytes', bv(8))), U('set', ptr('p', k - 8), ('bytes', bv(8))), U('get', ptr('p', 0), I(8))]
                    nb = 8
                else:
                    body = [U('set', ptr('p', 0), ('bytes', bv(k))), *mchk('p'), U('get', ptr('p', 0), I(k))]
                    nb = k
                yield sc(t % ('aligned%d' % al), bs(nb), A(U('aligned_malloc', I(k), I(al), mdst='p'), *body,
                                                           U('aligned_free', ptr('p', 0))), **kw)
            for k in {0, 1, n // 2, n, n + 1, 2 * n + 9, 300}:
                yield sc(t % ('realloc-%d' % k), {**bs(n), **bs(k, 'c')}, newu() + [U('malloc', I(n), mdst='p')] + fill + on + [
                    U('realloc', ptr('p', 0), I(k), mdst='r')] + off + mchk('p') + [dict(s, needmem='r') for s in mchk('r') + [
                        U('set', ptr('r', 0), ('bytes', bv(k, 'c')))] + mchk('r') + [U('free', ptr('r', 0))]] + [
                            dict(U('free', ptr('p', 0)), needmem='p')], **kw)
            yield sc(t % 'realloc-null', bs(n), A(U('realloc', I(0), I(n), mdst='p'), *fill, U('free', ptr('p', 0))), **kw)
    yield sc('rawalloc/free-null', {}, newu() + [U('free', I(0)), U('aligned_free', I(0))])
    for name, args in (('malloc', [(1 << 64) - 1]), ('malloc', [1 << 63]), ('calloc', [1 << 32, 1 << 32]), ('calloc', [1 << 33, 1 << 33]),
                       ('calloc', [(1 << 63) + 1, 2]), ('aligned_malloc', [1 << 63, 16])):
        yield sc('rawalloc/%s-huge-%s' % (name, '-'.join(map(str, args))), {}, newu() + [U(name, *map(I, args))])
    yield sc('rawalloc/realloc-huge', bs(8), newu() + [U('malloc', I(8), mdst='p'), U('set', ptr('p', 0), ('bytes', bv(8))),
             U('realloc', ptr('p', 0), I(1 << 63))] + mchk('p') + [U('free', ptr('p', 0))])


RAWSIG = {'malloc': 'n', 'calloc': 'nn', 'realloc': 'mn', 'free': 'm', 'aligned_malloc': 'na', 'aligned_free': 'm', 'get': 'pn', 'set': 'pb',
          'memcpy': 'pqn', 'memset': 'pvn'}


def raw_bad(_, N):
    """wrong arguments leave memory alone"""
    good = {'n': I(4), 'p': ptr('p'), 'q': ptr('q'), 'a': I(16), 'b': ('bytes', [1, 2, 3, 4]), 'v': I(5), 'm': ('ptr', 'w', 0)}
    pre = newu() + [block('p', 8, 'b'), block('q', 8, 'c'), U('malloc', I(8), mdst='w')]
    post = mchk('p', 'q') + [U('set', ('ptr', 'w', 0), ('bytes', bv(8)))] + mchk('w') + [U('free', ('ptr', 'w', 0))]
    inp = {**bs(8), **bs(8, 'c')}
    for name, sig in RAWSIG.items():
        for i, c in enumerate(sig):
            for bn, b in BADS.items():
                if c == 'b' and bn == 'bytes' or c in 'pqm' and (bn == 'neg' or name in ('realloc', 'get', 'set') and b[0] == 'int'):
                    continue
                args = [good[x] for x in sig]
                args[i] = b
                yield sc('rawbad/%s/%d-%s' % (name, i, bn), inp, pre + [U(name, *args)] + post)
        if len(sig) > 1:
            for k in range(5):
                if k != len(sig):
                    yield sc('rawbad/%s/args%d' % (name, k), inp, pre + [U(name, *([good[x] for x in sig] + [I(1)] * 5)[:k])] + post)


# ------------------------------------------------------------------ objects by address
def rc(o, steps, delta=0):
    return [{'op': 'rcmark', 'obj': o}] + steps + [{'op': 'rccheck', 'obj': o, 'delta': delta}]


def obj_address(_, N):
    lists = {'list': [{'op': 'let', 'dst': 'o', 'val': ('list', [V('x')]), 'shared': True}]}
    for ty in ('IntArrayList', 'ObjectLinkedList'):
        lists[ty] = [{'op': 'new', 'dst': 'o', 'type': ty, 'args': [('list', [V('i')])]}]
    inp = {'x': ('obj',), 'i': ('int', 1000, 1 << 30), 'c': ('int', 1, (1 << 31) - 64)}
    things = {'obj': ('x', []), 'int': ('i', []), 'none': ('o', [{'op': 'let', 'dst': 'o', 'val': N_}]),
              'true': ('o', [{'op': 'let', 'dst': 'o', 'val': ('bool', True)}])}
    things.update({k: ('o', s) for k, s in lists.items()})
    for k, (o, pre) in things.items():
        v = V(o)
        mortal = k not in ('none', 'true')
        body = {'address': [U('get_address', v)], 'object': [U('as_object', ('addr', o))],
                'twice': [U('as_object', ('addr', o)), U('as_object', ('addr', o)), U('get_address', v), U('as_object', ('addr', o))],
                'refcnt': [U('refcnt', v)], 'refcnt2': [U('incref', v), U('refcnt', v), U('decref', v), U('refcnt', v)]}
        for bn, st in body.items():
            yield sc('addr/%s-%s' % (bn, k), inp, pre + newu() + rc(o, st))
        yield sc('addr/keep-%s' % k, inp, pre + newu() + rc(o, [U('as_object', ('addr', o), dst='r'), U('get_address', V('r'))], 1 if mortal else 0) +
                 rc(o, [{'op': 'del', 'obj': 'r'}], -1 if mortal else 0))
        if mortal:
            for m in (1, 2, 5):
                up, down = [U('incref', v)] * m, [U('decref', v)] * m
                yield sc('addr/updown%d-%s' % (m, k), inp, pre + newu() + rc(o, up, m) + rc(o, down, -m))
            big = [{'op': 'setrc', 'obj': o, 'val': V('c')}]
            end = [{'op': 'unsetrc', 'obj': o}]
            for bn, st, d in (('incref', [U('incref', v)], 1), ('decref', [U('decref', v)], -1), ('refcnt', [U('refcnt', v)], 0),
                              ('address', [U('get_address', v)], 0), ('object', [U('as_object', ('addr', o))], 0)):
                undo = [U('decref', v)] if d > 0 else [U('incref', v)] if d < 0 else []
                yield sc('addr/any-%s-%s' % (bn, k), inp, pre + newu() + big + rc(o, st, d) + [U('refcnt', v)] + rc(o, undo, -d) + end)
        else:
            yield sc('addr/immortal-%s' % k, inp, pre + newu() + rc(o, [U('incref', v), U('refcnt', v), U('decref', v), U('refcnt', v)]))
    for bn, b in BADS.items():
        if bn == 'neg':
            continue
        yield sc('addr/as_object-%s' % bn, inp, newu() + [U('as_object', b)])
    yield sc('addr/as_object-0', inp, newu() + [U('as_object', I(0))])
    for cls in ('Unsafe', 'ASM', 'SIMD'):
        yield sc('addr/with-%s' % cls, inp, newu(cls) + rc('u', [U('__enter__')]) + rc('u', [U('__exit__', N_, N_, N_)]) +
                 rc('u', [U('__exit__')]) + [{'op': 'del', 'obj': 'u'}])
        yield sc('addr/new2-%s' % cls, inp, newu(cls) + [{'op': 'new', 'dst': 'w', 'type': cls, 'args': []}, {'op': 'del', 'obj': 'u'}])
    for m in ('run', 'runFast', 'makeFunction', 'makeFunctionFast', 'freeFunction', 'freeFunctionFast'):
        for k, args in enumerate(([], [V('x')], [('bytes', [0xc3])], [I(0)], [('bytes', [0xc3]), I(1)], [V('x'), V('i'), N_])):
            yield sc('asm/%s/%d' % (m, k), inp, newu('ASM') + rc('x', rc('i', [U(m, *args)])))


def raw_refs(_, N):
    """the memory functions keep their arguments' counts as they were"""
    pre = newu() + [{'op': 'mem', 'name': 'p', 'bytes': bv(8)}, {'op': 'mem', 'name': 'q', 'bytes': bv(8, 'c')},
                    {'op': 'let', 'dst': 'n', 'val': I(4)}, {'op': 'let', 'dst': 'by', 'val': ('bytes', [9, 8, 7])}]
    inp = {**bs(8), **bs(8, 'c'), 'v': ('int', 1000, 1 << 40)}
    for nm, args, o in (('get', [ptr('p', 0), V('n')], 'n'), ('set', [ptr('p', 0), V('by')], 'by'), ('memcpy', [ptr('p', 0), ptr('q', 0), V('n')], 'n'),
                        ('memset', [ptr('p', 0), V('v'), V('n')], 'v'), ('memset', [ptr('p', 0), V('n'), V('by')], 'by'),
                        ('set', [ptr('p', 0), V('v')], 'v')):
        yield sc('rawrefs/%s-%s' % (nm, o), inp, pre + rc(o, [U(nm, *args)] * 2))


# ------------------------------------------------------------------ function pointers
def fcalls(_, N):
    F = ('fnp', 'f')
    fc = [{'op': 'fcheck', 'fn': 'f'}]

    def fn(bits=64):
        return {'op': 'func', 'name': 'f', 'ret': ('int', V('r')), 'bits': bits}
    inp = {'r': ('bits', 64)}
    for m, bits in (('callVoid', 64), ('callInt', 32), ('callLongLong', 64)):
        yield sc('fcall/%s' % m, inp, newu() + [fn(bits), U(m, F)] + fc + [U(m, F)] + fc)
        for bn, b in BADS.items():
            if bn not in ('neg', ):
                yield sc('fcall/%s/%s' % (m, bn), inp, newu() + [fn(bits), U(m, b)] + fc)
        for k in (0, 2, 3):
            yield sc('fcall/%s/args%d' % (m, k), inp, newu() + [fn(bits), U(m, *[F] * k)] + fc)
    for n in range(0, 9):
        for d in (0, 3):
            yield sc('fcall/call/n%d/off%d' % (n, d), {**inp, **bs(12, 'c')}, newu() + [fn(), block('q', 12, 'c'),
                     U('call', F, ptr('q', G + d), I(n))] + fc + mchk('q'))
    yield sc('fcall/call-null', inp, newu() + [fn(), U('call', F, I(0), I(0))] + fc)
    for n in [k for k in N if k > 8]:
        for d in (0, 5):
            yield sc('fcall/call-big/n%d/off%d' % (n, d), {**bs(n + d), **bs(n, 'c')}, newu() + [block('p', n + d, 'b'), block('q', n, 'c'), {
                'op': 'func', 'name': 'f', 'ret': ('ptr', 'p', G + d)}, U('call', F, ptr('q'), I(n))] + fc + mchk('p', 'q'))
    good = [F, ptr('q'), I(4)]
    for i in range(3):
        for bn, b in BADS.items():
            if i < 2 and bn == 'neg':
                continue
            args = list(good)
            args[i] = b
            yield sc('fcall/call/%d-%s' % (i, bn), {**inp, **bs(8, 'c')}, newu() + [fn(), block('q', 8, 'c'), U('call', *args)] + fc + mchk('q'))
    for k in (0, 1, 2, 4):
        yield sc('fcall/call/args%d' % k, {**inp, **bs(8, 'c')}, newu() + [fn(), block('q', 8, 'c'), U('call', *(good + [I(1)])[:k])] + fc + mchk('q'))


# ------------------------------------------------------------------ SIMD helpers
def simd_ops(_, N, which=None):
    from .memspec import ELEM
    for ty, k in ELEM.items():
        if which and ty not in which:
            continue
        for n in N:
            b = n * k
            t = 'simd/%%s/%s/n%d' % (ty, n)
            for d in (0, 1):
                two = {**bs(b), **bs(b, 'c')}
                yield sc(t % ('memcpy%d' % d), two, newu('SIMD') + [block('p', b, 'b', G + 16 * k * d), block('q', b, 'c', G + k * d),
                         U('memcpy' + ty, ptr('p', G + 16 * k * d), ptr('q', G + k * d), I(n))] + mchk('p', 'q'))
                yield sc(t % ('reverse%d' % d), bs(b), newu('SIMD') + [block('p', b, 'b', G + k * d), U(
                    'reverse' + ty, ptr('p', G + k * d), I(n))] + mchk('p'))
            yield sc(t % 'memcpyAligned', two, newu('SIMD') + [block('p', b, 'b'), block('q', b, 'c'),
                     U('memcpy%sAligned' % ty, ptr('p'), ptr('q'), I(n))] + mchk('p', 'q'))
        for nm, sig in (('memcpy' + ty, 'pqn'), ('memcpy%sAligned' % ty, 'pqn'), ('reverse' + ty, 'pn')):
            good = {'p': ptr('p'), 'q': ptr('q'), 'n': I(2)}
            pre = newu('SIMD') + [block('p', 2 * k, 'b'), block('q', 2 * k, 'c')]
            inp = {**bs(2 * k), **bs(2 * k, 'c')}
            for i in range(len(sig)):
                for bn in ('none', 'str', 'huge', 'mhuge') + (('neg', 'big') if sig[i] == 'n' else ()):
                    args = [good[c] for c in sig]
                    args[i] = BADS[bn]
                    yield sc('simdbad/%s/%d-%s' % (nm, i, bn), inp, pre + [U(nm, *args)] + mchk('p', 'q'))
            for j in range(5):
                if j != len(sig):
                    yield sc('simdbad/%s/args%d' % (nm, j), inp, pre + [U(nm, *([good[c] for c in sig] + [I(1)] * 4)[:j])] + mchk('p', 'q'))


def simd_set(_, N):
    from .memspec import SETS
    for nm, (n, w) in SETS.items():
        lo, hi = -(1 << 8 * w - 1), (1 << 8 * w - 1) - 1
        lanes = {'x%d' % i: ('int', lo, hi) for i in range(n)}
        vs = [V('x%d' % i) for i in range(n)]
        for d in (0, 1, 32):
            yield sc('simdset/%s/off%d' % (nm, d), {**lanes, **bs(n * w, 'c')}, newu('SIMD') + [block('q', n * w, 'c', G + d), U(
                nm, ptr('q', G + d), *vs)] + mchk('q'))
        few_ = {'x0': ('int', lo, hi)}
        zs = [I(i) for i in range(n)]
        for i in {0, 1, 2, n // 2, n - 1, n}:
            for bn in ('none', 'str', 'huge') if i else ('none', 'str', 'huge', 'mhuge'):
                args = [ptr('q')] + zs
                args[i] = BADS[bn]
                yield sc('simdset/%s/%d-%s' % (nm, i, bn), {**few_, **bs(n * w, 'c')}, newu('SIMD') + [block('q', n * w, 'c'), U(nm, *args)] + mchk('q'))
        for j in (0, 1, n - 1, n, n + 2):
            yield sc('simdset/%s/args%d' % (nm, j), {**few_, **bs(n * w, 'c')}, newu('SIMD') + [block('q', n * w, 'c'), U(
                nm, *([ptr('q')] + zs + [I(1)] * 2)[:j])] + mchk('q'))


# ------------------------------------------------------------------ processor features
CPUIN = {'max': ('bits', 32), 'ecx': ('bits', 32), 'ebx': ('bits', 32), 'xcr': ('bits', 64)}
BOOT = [{'op': 'cpu'}]
FEATURES = ('isSSE41Supported', 'isSSSE3Supported', 'isAVX2Supported', 'isAVX512Supported', 'isArmNeonSupported')


def features(_, N):
    """every report on every processor"""
    for m in FEATURES:
        yield sc('cpu/' + m, CPUIN, BOOT + newu('SIMD') + [U(m), U(m)], cpu=1, leaks=False)
    yield sc('cpu/all', CPUIN, BOOT + newu('SIMD') + [U(m) for m in FEATURES], cpu=1, leaks=False)


def gated(_, N):
    """vectorised code on every processor"""
    from .memspec import ELEM
    for ty in INTLISTS:
        for n in N:
            for name in ('sort', 'reverse', 'mul', 'imul', 'copy', 'extend', 'add', 'setall', 'delete', 'insert', 'index'):
                if ty == 'IntLinkedList' and name != 'sort':
                    continue
                st = {'sort': C_('sort'), 'reverse': C_('reverse'), 'mul': [{'op': 'mul', 'obj': 'a', 'val': I(2)}],
                      'imul': [{'op': 'imul', 'obj': 'a', 'val': I(2)}], 'copy': C_('copy'), 'extend': C_('extend', V('a')),
                      'add': [{'op': 'add', 'obj': 'a', 'val': V('a')}],
                      'setall': [{'op': 'setitem', 'obj': 'a', 'key': FULL, 'val': ('list', [I(3)] * (n + 2))}],
                      'delete': [{'op': 'delitem', 'obj': 'a', 'key': I(0)}], 'insert': C_('insert', I(0), I(4)),
                      'index': C_('index', I(n * 37 % 101))}[name]
                yield sc('gate/%s-%s/n%d' % (ty, name, n), CPUIN, BOOT + mk(ty, [('int', i * 37 % 101) for i in range(n)]) + st + obs('a'),
                         cpu=1, leaks=False)
    for n in N:
        yield sc('gate/ObjectArrayList-reverse/n%d' % n, CPUIN, BOOT + mk('ObjectArrayList', [('int', i) for i in range(n)]) + C_('reverse') +
                 obs('a'), cpu=1, leaks=False)
        for ty, k in ELEM.items():
            for f in ('memcpy%s', 'memcpy%sAligned', 'reverse%s'):
                b = [i * 7 & 255 for i in range(k * n)]
                args = [ptr('p', 0), I(n)] if 'rev' in f else [ptr('p', 0), ptr('q', 0), I(n)]
                yield sc('gate/%s/n%d' % (f % ty, n), CPUIN, BOOT + newu('SIMD') + [{'op': 'mem', 'name': 'p', 'bytes': b}, {
                    'op': 'mem', 'name': 'q', 'bytes': b}, U(f % ty, *args)] + mchk('p', 'q'), cpu=1, leaks=False)


# ------------------------------------------------------------------ what import provides
SLOTS = {'__len__': ('sq_length', 'mp_length'), '__getitem__': ('sq_item', 'mp_subscript'), '__setitem__': ('sq_ass_item', 'mp_ass_subscript'),
         '__delitem__': ('sq_ass_item', 'mp_ass_subscript'), '__contains__': ('sq_contains',), '__add__': ('sq_concat',),
         '__iadd__': ('sq_inplace_concat',), '__mul__': ('sq_repeat',), '__rmul__': ('sq_repeat',), '__imul__': ('sq_inplace_repeat',),
         '__iter__': ('tp_iter',), '__next__': ('tp_iternext',), '__repr__': ('tp_repr',), '__init__': ('tp_init',)}
SLOTS.update({'__%s__' % c: ('tp_richcompare',) for c in ('eq', 'ne', 'lt', 'le', 'gt', 'ge')})
PUBLIC = {'ints': ('IntArrayList', 'IntArrayListIter', 'BigIntArrayList', 'BigIntArrayListIter', 'IntLinkedList', 'IntLinkedListIter'),
          'objects': ('ObjectArrayList', 'ObjectArrayListIter', 'ObjectLinkedList', 'ObjectLinkedListIter'),
          'unsafe/Unsafe': ('Unsafe',), 'unsafe/SIMD': ('SIMD',), 'unsafe/ASM': ('ASM',)}


def documented(stub, cls):
    """the operations the stub file documents for a class (with those of list for what it calls a list)"""
    import ast
    from . import build
    with open('%s/pyfastutil/%s.pyi' % (build.REPO, stub), encoding='utf-8') as f:
        t = ast.parse(f.read())
    for c in t.body:
        if isinstance(c, ast.ClassDef) and c.name == cls:
            names = {d.name for d in c.body if isinstance(d, ast.FunctionDef)}
            bases = ast.dump(ast.Tuple(c.bases, ast.Load()))
            if "'list'" in bases:
                names |= {x for x in dir(list) if getattr(list, x) is not getattr(object, x, None)} - {
                    '__doc__', '__hash__', '__sizeof__', '__getattribute__', '__new__', '__init_subclass__', '__subclasshook__'}
            if "'Iterator'" in bases:
                names |= {'__iter__', '__next__'}
            return sorted(names - {'__hash__'})
    return []


def surface(_, N):
    for stub, classes in PUBLIC.items():
        for c in classes:
            yield sc('surface/' + c, CPUIN, BOOT + [{'op': 'surface', 'type': c, 'names': documented(stub, c)}], cpu=1, leaks=False)


def low_surface():
    from . import avx512
    return sc('surface/SIMDLowAVX512', {}, [{'op': 'surface', 'type': 'SIMDLowAVX512', 'names': sorted(avx512.table())}], alone=1, leaks=False)


# ------------------------------------------------------------------ console
def console(_, N):
    """fputs, fflush and fgets"""
    def inp(k, pre='c'):
        return {'%s%d' % (pre, i): ('int', 1, 127) for i in range(k)}

    def txt(k, pre='c'):
        return ['%s%d' % (pre, i) for i in range(k)]

    def feed(bs=(), end='eof'):
        return newu() + [{'op': 'stdin', 'bytes': list(bs), 'end': end}]
    done = [{'op': 'outcheck', 'all': 1}]
    flushed = [{'op': 'outcheck'}]
    fl = [U('fflush')]
    for n in N:
        s = ('chars', txt(n))
        yield sc('console/fputs/n%d' % n, inp(n), feed() + [U('fputs', s)] + done)
        yield sc('console/fputs-flush/n%d' % n, {**inp(n), **inp(2, 'd')}, feed() + [U('fputs', s)] + fl + flushed + [U('fputs', ('chars', txt(2, 'd')))] + fl + flushed)
    for nm, t in (('latin', 'a\xe9\xff'), ('ucs2', '\u20ac\u0100'), ('ucs4', 'x\U0001f600')):
        yield sc('console/fputs-' + nm, {}, feed() + [U('fputs', ('chars', [ord(c) for c in t]))] + done + [U('fputs', ('chars', [ord(c) for c in t[::-1]]))] + fl + flushed)
    yield sc('console/fputs-surrogate', {}, feed() + [U('fputs', ('chars', [97, 0xd800]))] + done)
    for bn, b in BADS.items():
        if bn != 'str':
            yield sc('console/fputs/' + bn, {}, feed() + [U('fputs', b)] + done)
        if bn != 'float' or b[0] == 'float':
            yield sc('console/fgets/' + bn, inp(3), feed(txt(3)) + [U('fgets', b)] + done + [U('fgets', I(9))] + done)
    for n in N:
        for k in sorted({1, 2, 3, max(n, 1), n + 1, n + 2, 2 ** 31 - 1}):
            yield sc('console/fgets/n%d/size%d' % (n, k), inp(n), feed(txt(n)) + [U('fgets', I(k))] + done + [U('fgets', I(k))] + done + [U('fgets', I(4))] + done)
        yield sc('console/fgets-any/n%d' % n, {**inp(n), 'k': ('int', -(1 << 40), n + 2)}, feed(txt(n)) + [U('fgets', V('k'))] + done + [U('fgets', I(n + 9))] + done)
        yield sc('console/fgets-oom/n%d' % n, inp(n), feed(txt(n)) + [{'op': 'faults', 'on': 1}, U('fgets', I(n + 3)), {'op': 'faults', 'on': 0}], faults=1,
                 fault_only=('malloc', 'calloc', 'realloc', 'aligned_alloc'))
    yield sc('console/fgets-bool', inp(2), feed(txt(2)) + [U('fgets', ('bool', True)), U('fgets', ('bool', False))] + done)
    yield sc('console/fgets-error', {}, feed((), 'error') + [U('fgets', I(1)), U('fgets', I(10)), U('fgets', I(5))])
    for nm, bs in (('latin', 'a\xe9\n'.encode()), ('wide', '\u20ac\U0001f600\n'.encode()), ('bad', b'a\xff\xfe\n'), ('cut', b'a\xc3')):
        for k in (2, 3, 4, 20):
            yield sc('console/fgets-%s/size%d' % (nm, k), inp(2), feed(list(bs) + txt(2)) + [U('fgets', I(k))] + done + [U('fgets', I(30))] + done)
    yield sc('console/mixed', {**inp(4), **inp(2, 'd')}, feed(txt(4)) + [U('fputs', ('chars', txt(2, 'd'))), U('fgets', I(3))] + fl + flushed +
             [U('fputs', ('chars', txt(2, 'c'))), U('fgets', I(3)), U('fflush'), U('fgets', I(3))] + flushed)
