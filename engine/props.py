"""Which scenarios decide which property, within which bounds."""
from . import scen, scen2, scen3, avx512
from .scen import ALL, INTS, OBJS

ASSUME = [
    'LLVM IR of /repo/pyfastutil/src at -O1 (clang 18, vectorisers off) is what is executed symbolically; the shipped '
    'build uses gcc -O3, so behaviour gcc gives undefined C++ is out of scope',
    'CPython 3.12 and libc are represented by models; completed paths are re-run on the real extension to validate them',
    'user objects compare consistently with one rank per object (16 ranks); longer lists and other histories are outside '
    'the bounds',
]


def fam(f):
    return getattr(scen, f, None) or getattr(scen2, f, None) or getattr(scen3, f)


def S(fams, types, sizes, cpu='avx512', **kw):
    return (cpu, [s for f in fams for ty in types for s in fam(f)(ty, sizes, **kw)])


def merged(plans):
    """one plan per processor level, big scenarios first"""
    d = {}
    for cpu, sc in plans:
        d.setdefault(cpu, []).extend(sc)
    return [(c, sorted(x, key=lambda s: -len(s['inputs']))) for c, x in d.items()]


PROPS = {}


def prop(pid, plan, **kw):
    PROPS[pid] = dict(plan=plan, **kw)


R4, R5 = (0, 1, 2, 3), (0, 1, 2, 3, 4, 5)


BIG = (7, 8, 12, 16, 17, 33, 65, 130)
BIGT = tuple(range(5, 21)) + (24, 31, 32, 33, 40, 64, 65, 100, 127, 128, 129, 260)


HUGE, HUGET = (300, 1030), (257, 512, 1025, 2050, 4100)


def simple(fams, types=ALL, quick=R4, thorough=R5, big=(), bq=BIG, bt=BIGT, huge=(), hq=HUGE, ht=HUGET, **kw):
    return lambda th: merged([S(fams, types, thorough if th else quick, **kw), S(big, types, bt if th else bq), S(huge, types, ht if th else hq)])


def sizes(q='3', t='5', bq=BIG, bt=BIGT):
    return lambda th: ('lists of up to %s elements, every element value, every index and bound (beyond 64 bits); longer lists (%s '
                       'elements) with elements of every value (searches: some of them) and chosen positions; all five list types'
                       % (t if th else q, ', '.join(map(str, bt if th else bq))))


prop('C02', simple(['reads', 'slices_get'], big=['large_reads'], huge=['huge_reads']), bounds=sizes())
prop('C03', simple(['setitem', 'setslice'], thorough=R4 + (4,), big=['large_set'], bq=(8, 17, 33), huge=['huge_set']), bounds=sizes(t='4', bq=(8, 17, 33)))
prop('C04', simple(['mutators', 'resize'], big=['large_mut'], bq=BIG[:-1], huge=['huge_mut']), bounds=sizes(bq=BIG[:-1]))
prop('C05', simple(['search'], big=['large_search'], huge=['huge_search']), bounds=sizes())
prop('C06', simple(['compare'], thorough=R4 + (4,), big=['large_cmp'], huge=['huge_cmp']), bounds=sizes(t='4'))


def c07(th):
    A = ('IntArrayList', 'BigIntArrayList', 'ObjectArrayList')
    return merged([S(['concat'], ALL, R5 if th else R4), S(['huge_concat'], ALL, HUGET if th else HUGE)] + [
        S(['large_concat'], ALL if c == 'avx512' else A[:3 if th else 2], tuple(range(5, 41)) +
          (63, 64, 65, 66, 68, 71, 95, 96, 100, 127, 128, 129, 140, 257) if th else
          (9, 17) if c == 'none' else tuple(range(6, 33)) + ((64, 65, 71, 100) if c == 'avx512' else (69,)), c)
        for c in ('avx512', 'avx2', 'sse', 'none')])


prop('C07', c07, bounds=lambda th: 'lists of up to %d elements, every element value, every count up to 3 and the huge ones; every length of %s '
     'and some up to %d with fixed counts, four processor levels; all five list types' % ((5, '5 to 40', 257) if th else (3, '6 to 32', 100)))


prop('C01', simple(['store_read', 'reads'], types=INTS, quick=(0, 1, 2), thorough=R4),
     bounds=lambda th: 'every value of every element of lists of up to %d elements through 12 ways of storing and 10 ways of '
                       'reading' % (3 if th else 2))


def c08(th):
    AR = ('IntArrayList', 'BigIntArrayList')
    I, B = AR
    one, hilo = [(-1, 0)], [(0, 1 << 32)]

    def two(cpu, ty, n, free, doms=None):
        return S(['sort_two'], [ty], n, cpu, free=free, doms=doms)

    def bg(cpu, free, seeds, n):
        return S(['sort_bg'], INTS, n, cpu, free=free, seeds=seeds)
    return merged([S(['sort_plain'], INTS, (0, 1, 2, 3, 4, 5) if th else (0, 1, 2, 3, 4)),
            S(['huge_sort'], INTS, HUGET if th else HUGE, fixed=True), S(['huge_sort'], INTS, (300, 1030, 5003, 6000) if th else (300, 5003), 'none', fixed=True),
            two('avx512', I, (17,), 17, None if th else one), two('avx512', B, (9,), 9, None if th else hilo),
            two('avx512', I, (8, 9, 13, 33), 5, one), two('avx512', B, (8, 13, 17), 5, [(0, 1 << 32)]),
            two('avx2', I, (9,), 9, one), two('avx2', B, (8, 9), 9, None if th else hilo), two('avx2', I, (8, 13, 17), 5, one),
            two('avx2', B, (13,), 5, hilo),
            two('sse', I, (8,), 6), two('sse', B, (8,), 6, hilo), two('sse', 'IntLinkedList', (8,), 6, one), bg('sse', 2, (0, 1), (17,)), bg('sse', 1, (0, 1), (33,)),
            two('none', I, (8,), 4, one), bg('none', 1, (2, 3), (17,))] + (
        [two('avx512', I, (24, 40), 9), two('avx512', B, (24, 33), 9), two('avx2', I, (24, 33), 9),
         two('avx2', B, (24, 33), 8), bg('sse', 2, (2, 3, 4, 5), (17, 24, 33, 40)), bg('sse', 1, (6, 7, 8), (64, 100))] if th else []))


def c09(th):
    return merged([S(['sort_keyed', 'sort_fail'], ALL, R4 + (4,) if th else R4),
                   S(['large_sort'], ALL, (9, 17, 33, 40, 64, 65, 70, 100, 130, 200) if th else (9, 17, 40, 70),
                     seeds=(0, 1, 2, 3, 4, 5) if th else (0, 1, 2)),
                   S(['huge_sort'], OBJS, HUGET[:3] if th else HUGE), S(['sort_kinds'], OBJS, (1, 2, 3, 4) if th else (2,)),
                   S(['sort_kinds'], ['ObjectArrayList'], () if th else (3,)), S(['sort_kinds'], INTS, R4 if th else (2,)), S(['huge_sortkinds'], ALL, (70, 300, 1030) if th else (70, 300))])


prop('C08', c08, samples=1,
     bounds=lambda th: 'every content of up to %d elements; contents of two values (0-1 principle) with 17 free elements for the '
                       '16-lane network, 9 for the 8-lane ones, 6 to 9 free elements at lengths up to %d; scalar paths with one '
                       'or two free elements in fixed contents of up to %d elements; four processor levels'
                       % ((5, 40, 100) if th else (4, 33, 33)))
prop('C09', c09,
     bounds=lambda th: 'lists of up to %d elements, every value, six key functions, a failure at every callback; lists of up to %d python ints of which one is free; '
                       'floats, strings and tuples of every content in lists of up to %d; all five list types' % ((4, 200, 4) if th else (3, 70, 3)))
prop('C10', simple(['from_range'], types=INTS, thorough=R5, big=['large_range'], huge=['huge_range']),
     bounds=lambda th: 'ranges of up to %d elements, every start and stop, 17 fixed steps up to the 64-bit limits and every step '
                       'below 2**24' % (5 if th else 3))


def c11(th):
    return [S(['reverse'], ALL, tuple(range(0, 133 if th else 41)), cpu) for cpu in ('avx512', 'avx2', 'sse', 'none')]


prop('C11', c11, bounds=lambda th: 'every content of every length up to %d, four processor levels, all five list types'
     % (132 if th else 40))
prop('C12', simple(['iters', 'iter_mutate'], big=['large_iter'], huge=['huge_iter']), bounds=lambda th: 'lists of up to %d elements, one iterator (or two), 14 kinds of '
     'change after any number of steps; all five list types' % (5 if th else 3))
prop('C19', simple(['construct'], big=['large_construct'], huge=['huge_construct']), bounds=lambda th: 'sources of up to %d elements, every capacity, nine kinds of iterable; '
     'all five list types' % (5 if th else 3))

FUNCFAMS = ['reads', 'mutators', 'search', 'concat', 'rendering', 'construct', 'setitem', 'iters', 'store_read']


def c13(th):
    n = R4 if th else (0, 1, 2)
    return [S(['reads', 'setitem', 'setslice', 'mutators', 'search', 'compare', 'concat', 'sort_keyed', 'sort_fail', 'iters',
               'construct', 'resize', 'rendering', 'dels', 'badargs', 'triples'], OBJS, n),
            S(['sort_kinds'], OBJS, (2,)),
            ]


def c14(th):
    n = R4 if th else (0, 1, 2)
    return [S(['reads', 'setitem', 'setslice', 'mutators', 'search', 'compare', 'concat', 'iters', 'construct', 'resize',
               'rendering', 'badargs', 'store_read', 'buffer', 'sort_keyed', 'sort_fail'], INTS, n)]


def c15(th):
    if th:
        return [S(['pairs', 'reenter', 'dels', 'iter_mutate', 'setslice', 'badargs'], ALL, R4)] + [
            (c, [s for ty in ALL for sd in range(1, 6) for s in scen.triples(ty, (0, 2, 3), sd, 300)]) for c in ('avx512',)]
    return [S(['pairs'], ALL, (2,)), S(['reenter', 'dels'], ALL, (0, 1, 3)), S(['iter_mutate'], ALL, (2,)),
            ('avx512', [s for ty in ALL for s in scen.triples(ty, (1,), 0, 40)])]


prop('C13', lambda th: merged(c13(th)), kinds='refs', bounds=lambda th: 'object lists of up to %d elements: every operation once, '
     'failing ones included, finalizers that use the list, and random three-operation sequences' % (3 if th else 2))
prop('C14', lambda th: merged(c14(th)), kinds='leak', bounds=lambda th: 'integer lists of up to %d elements: every operation, '
     'failing ones included' % (3 if th else 2))
prop('C15', lambda th: merged(c15(th)), kinds='mem', samples=1, budget={'quick': 300, 'thorough': 800}, bounds=lambda th: 'every pair of operations on lists of 2 elements, '
     '200 triples on lists of one element, every callback changing the list while an operation runs (lists of up to 3)'
     if not th else 'every pair of operations on lists of up to 3 elements, 4500 triples, every callback changing the list')
prop('C16', lambda th: [S(['badargs', 'reenter'] if th else ['badargs'], ALL, R4)],
     bounds=lambda th: 'lists of up to 3 elements, wrong types and counts for every argument, failing iterables and callbacks')
prop('C20', simple(['buffer'], types=('IntArrayList', 'BigIntArrayList'), thorough=(0, 1, 2, 3, 4, 5, 6), big=['large_buffer'], huge=['huge_buffer']),
     bounds=lambda th: 'lists of up to %d elements, every request flag, one or two views, 21 operations while a view exists' % (6 if th else 3))
prop('C27', simple(['rendering'], thorough=R4 + (4,), big=['large_repr'], huge=['huge_repr']), bounds=lambda th: 'lists of up to %d elements; one element of any value, the '
     'others within -101..101; self-containing lists' % (4 if th else 3))
prop('C17', lambda th: merged([S(['faulty'], ALL, R4 if th else (0, 2)), S(['large_faulty'], ALL, (9, 17, 33, 40, 70, 130) if th else (17, 70))]),
     kinds='fault', bounds=lambda th: 'one failing allocation at any point of each of some 50 operations; lists of up to %d elements of every value, longer '
     'ones with fixed contents' % (3 if th else 2))
prop('C18', lambda th: merged([S(['threads'], ALL, R4 + (17, 40, 64, 130, 300, 1100) if th else (3, 40, 130))]), kinds='gil',
     bounds=lambda th: 'another thread running one of six list changing operations at the first point where the interpreter lock is released or '
     'taken again, during each of some 50 operations; lists of 3 elements of every value and longer ones (up to %d) with fixed contents' % (1100 if th else 130))



def one(fams, n, cpus=('avx512',)):
    return [S([f], ['-'], n, c) for f in fams for c in cpus]


CPU4 = ('avx512', 'avx2', 'sse', 'none')
prop('C21', lambda th: merged(one(['raw_copy'], tuple(range(0, 41)) + (63, 64, 65, 128, 257) if th else tuple(range(0, 18)) + (31, 32, 33, 64, 65)) +
                              one(['raw_alloc'], tuple(range(0, 34)) + (64, 65, 129) if th else (0, 1, 3, 8, 15, 16, 17, 32, 33, 64)) + one(['raw_bad', 'raw_refs'], ())),
     kinds='all', bounds=lambda th: 'every content of blocks of up to %d bytes between untouched rows of 64 bytes, three offsets; every alignment up to '
     '4096; one failing allocation; ten wrong values for every argument' % (257 if th else 65))
prop('C22', lambda th: merged(one(['obj_address', 'raw_refs'], ())), kinds='all', bounds='six kinds of objects, every reference count below 2**31, and the '
     'immortal ones; sequences of up to ten calls')
prop('C23', lambda th: merged(one(['fcalls'], tuple(range(9, 70 if th else 34)))), kinds='all', bounds=lambda th: 'every 64 bit result, every size up to 8 '
     'bytes, larger ones (up to %d) copied from the address the function returned; ten wrong values for every argument' % (69 if th else 33))
prop('C24', lambda th: merged(one(['simd_ops'], tuple(range(0, 71)) + (127, 128, 129) if th else (0, 1, 2, 4, 5, 8, 9, 17, 33, 70), CPU4) +
                              one(['simd_set'], (), CPU4 if th else ('avx512', 'none'))),
     bounds=lambda th: 'every content of %s elements of the 29 element types, two alignments, four processor levels; every lane value'
     % ('up to 70 (and 127 to 129)' if th else '0, 1, 2, 4, 5, 8, 9, 17, 33 and 70'))

prop('C26', lambda th: merged(one(['features'], (), ('none',)) + one(['gated'], tuple(range(0, 34)) + (64, 65, 70) if th else (0, 4, 9, 17, 33, 70), ('none',))),
     kinds='func', bounds=lambda th: 'every value of the words the processor and the system report (largest leaf, leaf 1 ecx, leaf 7 ebx, xcr0): every '
     'report, and every list and SIMD operation with a vectorised implementation on fixed contents of %s elements, no instruction of a set that is '
     'not reported' % ('0 to 33, 64, 65 and 70' if th else '0, 4, 9, 17, 33 and 70'))

prop('C25', lambda th: [('avx512', avx512.scens(th))], kinds='all', avx512=True, bounds=lambda th: 'every operand value of each of the 892 bindings '
     'that GCC and Clang get an implementation of, the 128 bytes behind a pointer operand; %s wrong numbers of arguments; the 466 bindings '
     'documented as unimplemented' % ('every' if th else 'one argument more or less,'))

prop('C28', lambda th: merged(one(['surface'], (), ('none',))), kinds='func', bounds='every value of the words the processor and the system report '
     'while the module is imported; the 13 public classes except SIMDLowAVX512 (see C25)')

prop('C29', lambda th: [S(['subclassed'], ALL, R4 if th else (0, 1, 2))], kinds='all',
     bounds=lambda th: 'lists of up to %d elements of every value; every operation of C02 to C12 and C27 on instances of a derived class: all operands, '
     'the first one, or the others' % (3 if th else 2))
prop('C30', lambda th: merged(one(['console'], tuple(range(0, 9)) + (17, 40) if th else (0, 1, 2, 3, 4))), kinds='all', samples=1,
     bounds=lambda th: 'texts and input lines of up to %d ASCII characters of every value, fixed texts of other characters, every buffer size around the '
     'length of the input, the largest ones, and wrong arguments; one failing allocation' % (40 if th else 4))

NA = {}
MORE_FIXED = []
