#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
I, B, L = 'pyfastutil/src/ints/IntArrayList.cpp', 'pyfastutil/src/ints/BigIntArrayList.cpp', 'pyfastutil/src/ints/IntLinkedList.cpp'
OA, OL = 'pyfastutil/src/objects/ObjectArrayList.cpp', 'pyfastutil/src/objects/ObjectLinkedList.cpp'
INTS, OBJS = [I, B, L], [OA, OL]
ALL = INTS + OBJS
ITERS = [f.replace('.cpp', 'Iter.cpp') for f in ALL]
PU = 'pyfastutil/src/utils/PythonUtils.h'
SORT = 'pyfastutil/src/utils/simd/BitonicSort.cpp'
SU = 'pyfastutil/src/utils/simd/SIMDUtils.h'
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append(d)


p('C01', 'Integers read back exactly as stored',
  'An integer stored in an IntArrayList or IntLinkedList (any 32-bit signed value) or a BigIntArrayList (any 64-bit signed value) by any storing operation is returned as the same Python int by every reading operation: indexing, slicing, pop, iteration in both directions, to_list, copy and the list a slice returns. Storing an object that is not an integer raises and stores nothing.',
  ['inputs'], 'every representable integer, every storing route (constructor, append, extend, insert, item and slice assignment) and every reading route',
  'Tests store a few dozen small constants; conversion mistakes show on value classes such as the most negative integer, digit boundaries of the Python int, or zero.',
  INTS + ITERS + [PU], [('C integer -> Python int', PU + ': PyFast_FromInt/PyFast_FromLongLong'), ('Python int -> C integer', 'PyLong_AsLong / PyLong_AsLongLong at every storing call site')])
p('C02', 'Positional reads and slices agree with a Python list',
  'For each of the five list types, len, a[i] with any index and a[i:j:k] with any slice give what the same expression gives on a Python list of the same elements (a slice read returns a plain Python list): same elements, same IndexError/ValueError/TypeError. Reading never changes the list.',
  ['inputs', 'histories'], 'every index and slice bound (negative, out of range, omitted, huge), every content, lists reached by construction, appends or pops',
  'Tests check a handful of indices on short constant lists; index normalisation, cursor caches in linked lists and clamping need all sign/size combinations after arbitrary histories.',
  ALL, [('sequence item slot', '*_getitem'), ('mapping subscript slot', '*_getitem_slice'), ('cached cursor of the linked lists', 'IntLinkedList.cpp/ObjectLinkedList.cpp: updateCache and friends')])
p('C03', 'Item and slice assignment and deletion agree with a Python list',
  'a[i] = v, del a[i], a[i:j] = values and del a[i:j] leave every list type with the elements a Python list would have, for every index, every bound and every replacement length, including growing, shrinking, empty, crossed (i > j) and self-referential replacements. Assigning or deleting a slice whose step is not 1 either does what a Python list does or raises and changes nothing.',
  ['inputs', 'histories'], 'every index/slice bound, replacement length and content, replacement given as list, tuple, other sequence, same-type list or the list itself',
  'Tests exercise a few fixed slices; the shift-in-place paths have one case split per sign of the length change and per bound clamp.',
  ALL, [('sequence assignment slot', '*_setitem'), ('mapping assignment slot', '*_setitem_slice')])
p('C04', 'append, extend, insert, pop, remove, clear and resize agree with a Python list',
  'append, extend, insert, pop, remove and clear transform every list type exactly as the same call transforms a Python list and return or raise what it does; extend takes any iterable, including the list itself. resize(n), which the array lists have, truncates to the first n elements or extends with zeros (None in object lists).',
  ['inputs', 'histories'], 'every content, every index argument, every value, every short operation sequence',
  'Tests follow fixed scripts; wrong shifting, off-by-one clamping or stale cursors need particular index/length combinations and call orders.',
  ALL, [('mutating methods', '*_append, *_extend, *_insert, *_pop, *_remove, *_clear, *_resize')])
p('C05', 'Search finds exactly the equal elements',
  'x in a, a.index(x[, start[, stop]]), a.count(x) and a.remove(x) act on exactly the positions whose element equals x (object lists: identity or ==, as Python lists do), with start/stop clamped as for Python lists. An integer outside the element range is never reported as present in an integer list.',
  ['inputs'], 'every content, every searched value including integers beyond the element width, and every start/stop',
  'Tests search small values in short lists; truncation of large values and clamping of start/stop are not sampled.',
  ALL, [('search methods', '*_contains, *_index, *_count, *_remove')])
p('C06', 'Comparisons agree with Python list comparison',
  'a == b, !=, <, <=, > and >= between two lists of one type, or one of them and a Python list (of integers, for the integer lists), give the result Python gives for lists of the same elements: element by element, then length. Equality against anything that is not a sequence of equal elements is False, and an error raised by an element comparison propagates.',
  ['inputs'], 'every pair of contents and lengths, operand kinds same type / list / tuple / other',
  'Tests compare a few pairs; lexicographic order has to be right for every pair of contents and lengths, and error paths are untested.',
  ALL, [('rich comparison slot', '*_compare and *_eq/_ne/_lt/_le/_gt/_ge')])
p('C07', 'Concatenation and repetition agree with Python lists',
  'a + b, a += b, a * n, n * a and a *= n produce the elements Python lists would for every pair of contents and every n (n <= 0 gives an empty list); + and * leave their operands unchanged and return an independent object, += and *= modify and return the list itself. A repetition too large to represent raises instead of producing a wrong list.',
  ['inputs', 'configurations'], 'every content, operand kind (same type, Python list, itself), repetition count, and CPU vector level',
  'Tests multiply short lists by small constants; vectorised copies and size arithmetic depend on length, alignment and count.',
  ALL + [SU], [('sequence slots', '*_add, *_iadd, *_mul, *_imul, *_rmul'), ('vector copy', SU + ': simdMemCpy*')])
p('C08', 'Sorting an integer list yields the sorted permutation',
  'sort() without a key leaves an integer list holding exactly its previous elements in ascending order, or descending order when reverse is true, for every content, length and CPU vector level.',
  ['inputs', 'configurations'], 'every content up to the stated length, both directions, every vector level the code dispatches on',
  'Tests sort a few random lists; a sorting network loses or misplaces elements only for particular orderings (0-1 principle: 2^n cases) and lengths.',
  INTS + [SORT], [('sort method', '*_sort'), ('vectorised sort', SORT + ': simdsort')])
p('C09', 'Keyed and object sorts are stable and survive failing keys',
  'sort(key=..., reverse=...) on every list type, and sort() on object lists, gives the order the Python list sort gives for the same keys, including stability. When the key function or a comparison raises, the error propagates and the list holds a permutation of its previous elements.',
  ['inputs', 'fault_sequences'], 'every content, every assignment of keys (with ties), key functions that raise at any call',
  'Tests use constant inputs and total keys; stability and failure paths depend on tie patterns and on which call raises.',
  ALL + ['pyfastutil/src/utils/include/CPythonSort.c'], [('sort method', '*_sort'), ('merge sort borrowed from CPython', 'CPythonSort.c: CPython_sort')])
p('C10', 'from_range equals list(range(...))',
  'from_range(start, stop, step) on integer lists holds exactly list(range(start, stop, step)) whenever its values fit the element type, in its one-, two- and three-argument forms, for positive and negative steps; a zero step raises ValueError. No argument makes it loop, overflow or return a different sequence.',
  ['inputs'], 'every start, stop and step whose range has at most the stated number of elements; every 64-bit extreme for the arguments',
  'Tests use a few divisible ranges; rounding for negative steps and overflow at 64-bit extremes are not sampled.',
  INTS + [PU], [('range constructor', '*_from_range'), ('range argument parsing', PU + ': PyParse_EvalRange')])
p('C11', 'reverse() reverses in place at every length and vector level',
  'reverse() turns every list type into the exact reversal of its previous elements, for every content and length and for each CPU vector level, and reversing memory through the SIMD class does the same for every element type.',
  ['inputs', 'configurations'], 'every content at every length up to the bound, every dispatch level',
  'Tests run on one CPU and a few lengths; the vector kernels have separate code for each level and for every remainder length.',
  ALL + [SU, 'pyfastutil/src/utils/include/qreverse.hpp'], [('reverse method', '*_reverse'), ('vectorised reversal', SU + ': simdReverse')])
p('C12', 'Iterators yield the list in order and stay safe under mutation',
  'iter(a) and reversed(a) yield each element once, in order or in reverse order, and then raise StopIteration on every later call; iterating yields exactly what indexing would. If the list is changed while an iterator is alive, the next step behaves as a Python list iterator does: it yields the element now at its position or stops for good; it never touches freed or out-of-range memory, and keeping only the iterator keeps the list alive.',
  ['inputs', 'histories'], 'every content, every interleaving of next() with one mutating operation at any position, iterator outliving its list',
  'Tests iterate unmodified lists; stale cursors need a mutation at a particular point of the iteration.',
  ITERS + ALL, [('iterator types', '*ListIter.cpp: *_next'), ('concurrent modification counter', 'IntLinkedList/ObjectLinkedList: modCount')])
p('C13', 'Object lists own exactly one reference per element',
  'Every element held by an ObjectArrayList or ObjectLinkedList is kept alive by exactly one reference owned by the list per occurrence; every operation, successful or failing, adds and releases references so that after the list is gone each object has the reference count it had before. Returned objects carry their own reference.',
  ['histories', 'inputs'], 'every operation and every two-operation sequence on lists up to the bound, success and error outcomes',
  'A missing or extra reference does not change any result a test sees; it leaks or crashes later.',
  OBJS + [f for f in ITERS if 'objects' in f], [('every operation that stores, removes or returns an element', '*_append, *_setitem, *_pop, *_clear, *_imul, ...')])
p('C14', 'Integer lists leak nothing',
  'No operation of an integer list, successful or failing, leaks a Python object or a memory block: after the list and everything it returned are released, all objects and allocations the operation created are released too, and arguments have the reference counts they had before.',
  ['histories', 'inputs', 'fault_sequences'], 'every operation with every outcome (success, wrong type, value out of range, iterator failing part-way)',
  'Leaks are invisible to result assertions, and failure paths are rarely taken in tests.',
  INTS + [f for f in ITERS if 'ints' in f], [('temporaries in every operation', '*_extend, *_setitem_slice, *_sort, *_to_list, ...')])
p('C15', 'No operation reads or writes memory it does not own',
  'No sequence of list operations with arguments of any type and value reads or writes outside live memory, uses a freed block, frees twice, or lets a C++ exception or a crash escape to the interpreter.',
  ['histories', 'inputs'], 'every operation and two-operation sequence on lists up to the bound, arguments of right and wrong types',
  'Out-of-bounds accesses often have no visible effect in a test run and depend on sizes and indices.',
  ALL + ITERS + [SU], [('element access', 'every method'), ('vectorised copies', SU)])
p('C16', 'Bad arguments raise the right error and change nothing',
  'An operation given an argument of a wrong type or count, or an iterable that fails part-way, raises an exception (never crashes, never returns a result with an exception pending, never swallows an error raised by user code), and an assignment, insert, append, index, pop or slice assignment that raises leaves the list exactly as it was.',
  ['inputs', 'fault_sequences'], 'every operation with wrong-typed arguments, and iterables/lengths that raise at any step',
  'Tests cover a few TypeErrors; the error position inside an iterable and the list state afterwards are not sampled.',
  ALL, [('argument conversion and error returns', 'every method; PySequence_Fast/PyIter_Next/PyLong_As* call sites')])
p('C17', 'Running out of memory raises and leaves the list usable',
  'If a memory allocation fails during an operation, the operation raises an exception, the interpreter lock and exception state are consistent, nothing is leaked or corrupted, and the list still holds a valid state that can be read and released.',
  ['fault_sequences'], 'failure of any single allocation (C++ heap, Python object or buffer) during any operation',
  'Tests never inject allocation failures.',
  ALL + ['pyfastutil/src/utils/memory/AlignedAllocator.h', PU], [('allocator', 'AlignedAllocator.h'), ('try/catch boundaries', 'every method')])
p('C18', 'The interpreter lock is held whenever Python or the list is touched',
  'No operation touches a Python object, the error state, or the contents of a list while it has released the interpreter lock, so another thread running any operation on the same list at that moment cannot make it read or write freed memory; every operation returns holding the lock.',
  ['schedules'], 'every operation, with another thread running any list operation at every point where the lock is released',
  'Tests are single threaded.',
  ALL, [('lock release points', 'any Py_BEGIN_ALLOW_THREADS / PyEval_SaveThread in a method (none at present)'), ('calls under the lock', 'every Python API call')])
p('C19', 'Construction accepts what it documents and refuses the rest',
  'Each list type built from no argument, a capacity, or any iterable (list, tuple, same type, other list types, generator) holds exactly the iterable\'s elements in order and shares nothing with the source; a capacity hint, which the array lists take, never changes the content; wrong argument types raise, and constructing again on an existing object replaces the contents without leaking.',
  ['inputs'], 'every source kind, content, capacity hint and argument error',
  'Tests construct from a few literals; capacity hints, failing iterables and repeated initialisation are not exercised.',
  ALL, [('initialiser', '*_init, parseArgs')])
p('C20', 'The buffer view shows exactly the live elements',
  'A memory view of an IntArrayList or BigIntArrayList exposes exactly its elements, as a writable one-dimensional array with matching format, item size, shape and length, and keeps the list alive; writes through the view are seen by the list.',
  ['inputs', 'histories'], 'every content and length, every request flag combination',
  'Tests take one buffer of a fixed list; ownership and flag handling are not observable there.',
  [I, B], [('buffer slot', '*_get_buffer')])
p('C21', 'Unsafe memory operations touch exactly the bytes asked for',
  'Unsafe.get/set/memcpy/memset and malloc/calloc/realloc/free/aligned_malloc/aligned_free read, write, allocate and release exactly the addresses and sizes given: the bytes transferred are exact, no neighbouring byte is touched, aligned blocks have the requested alignment, calloc memory is zero, and realloc keeps the common prefix. Invalid arguments raise before any memory is touched.',
  ['inputs'], 'every byte content and size up to the bound, every alignment, every argument type error',
  'Tests move a few fixed strings.',
  ['pyfastutil/src/unsafe/Unsafe.cpp', 'pyfastutil/src/utils/memory/AlignedAllocator.h', 'pyfastutil/src/utils/memory/FastMemcpy.h'],
  [('memory primitives', 'Unsafe.cpp: Unsafe_get .. Unsafe_memset'), ('aligned allocation', 'AlignedAllocator.h: alignedAlloc/alignedFree')])
p('C22', 'Unsafe object access keeps reference counts honest',
  'get_address returns the address that as_object turns back into the same object, as_object returns a new reference, refcnt reports the true count, and incref/decref change it by exactly one; none of the Unsafe, ASM or SIMD entry points leaks or loses a reference, and unsupported ASM calls raise NotImplementedError.',
  ['inputs', 'histories'], 'every object and every sequence of these calls',
  'Tests check the value, not the counts that decide a later crash.',
  ['pyfastutil/src/unsafe/Unsafe.cpp', 'pyfastutil/src/unsafe/ASM.cpp'], [('object/address conversion', 'Unsafe.cpp: get_address, as_object, incref, decref, refcnt')])
p('C23', 'Calls through a function pointer return its result exactly',
  'Unsafe.callInt, callLongLong, callVoid and call invoke the function at the given address exactly once and deliver its result exactly: every int or long long value comes back unchanged, and call stores exactly the requested number of result bytes (of the returned register for up to 8 bytes, of the memory the returned pointer refers to beyond that). A bad argument raises without calling anything.',
  ['inputs'], 'every returned value, every result size up to the register width, every argument error',
  'Tests call one or two functions with one result each.',
  ['pyfastutil/src/unsafe/Unsafe.cpp', PU], [('foreign calls', 'Unsafe.cpp: Unsafe_callVoid/callInt/callLongLong/call')])
p('C24', 'SIMD helper functions move exactly the elements asked for',
  'Every memcpy*, memcpy*Aligned and reverse* function of the SIMD class copies or reverses exactly count elements of its element type and touches no other byte, for every count, alignment and CPU vector level; the setAVX* functions store their arguments as lanes in intrinsic order. Wrong arguments raise before memory is touched.',
  ['inputs', 'configurations'], 'every content and count up to the bound, each vector level, every lane value',
  'Tests run on one CPU with one or two counts per type.',
  ['pyfastutil/src/unsafe/SIMD.cpp', SU, PU, 'pyfastutil/src/utils/include/qreverse.hpp'], [('helper templates', 'SIMD.cpp: SIMD_memcpy, SIMD_memcpyAligned, SIMD_reverse'), ('lane conversion', PU + ': PyFast_AsInt/AsShort/AsChar')])
p('C25', 'Each AVX-512 binding performs the intrinsic it is named after',
  'Every implemented function of SIMDLowAVX512 (892 of 1383 with GCC and Clang) applies the intrinsic of the same name to its arguments in order, each passed as its stub documents it (numbers as numbers, vectors and masks through their address), and stores the result at the output pointer, for every operand value; a function documented as not implemented raises NotImplementedError and touches nothing; a wrong number of arguments raises TypeError.',
  ['inputs', 'programs'], 'every binding, every vector operand value, every immediate handled by the binding',
  'There are 1383 generated bindings; tests cover a small share and only on CPUs with AVX-512.',
  ['pyfastutil/src/unsafe/SIMDLowAVX512.cpp'], [('generated wrappers', 'SIMDLowAVX512.cpp: SIMDLowAVX512_*_impl'), ('documented prototypes', 'pyfastutil/unsafe/SIMDLowAVX512.pyi')])
p('C26', 'CPU feature reports are true exactly when the feature is usable',
  'The SIMD class reports SSE4.1, SSSE3, AVX2 and AVX-512 as supported exactly when the processor advertises the instruction set and the operating system has enabled the register state it needs, and vectorised code is only entered when its instruction set is so reported.',
  ['configurations'], 'every combination of CPUID and XGETBV results',
  'Tests see one machine.',
  ['pyfastutil/src/utils/simd/SIMDHelper.cpp'], [('detection', 'SIMDHelper.cpp: is*Supported, osSupportsAVX')])
p('C27', 'repr, to_list and copy render the whole list and stay independent',
  'repr(a) and str(a) are the text Python prints for a list of the same elements, to_list() is a new Python list of them, and copy() is a new list of the same type; later changes to either side are not seen by the other, and an error raised while rendering propagates.',
  ['inputs', 'histories'], 'every content, self-referential object lists, elements whose repr raises',
  'Tests compare a few literals; independence after later mutation and failing elements are not sampled.',
  ALL, [('rendering and copying', '*_repr, *_str, *_to_list, *_copy')])
p('C28', 'Every documented class is complete and usable right after import',
  'On every processor, importing the module provides each class of the stub files, and an instance has every documented operation (for the list types: those of list) from the first use on: attribute access, hasattr and bound methods work before anything has looked at the class itself.',
  ['configurations', 'histories'], 'every processor report at import, every documented operation of every class, as the first thing done',
  'Tests always call methods first, which makes CPython complete the type behind the scenes.',
  ALL + ['pyfastutil/src/unsafe/Unsafe.cpp', 'pyfastutil/src/unsafe/SIMD.cpp', 'pyfastutil/src/unsafe/ASM.cpp', 'pyfastutil/src/unsafe/SIMDLowAVX512.cpp', 'pyfastutil/src/PyFastUtil.cpp'],
  [('module initialisation', 'PyInit_*, initialize*Type'), ('method tables', '*_methods')])
p('C29', 'Instances of subclasses behave like the list they inherit from',
  'An instance of a Python class derived from one of the list types behaves under every inherited operation exactly as the list itself, also as the other operand of +, +=, extend, slice assignment and comparisons (including with itself), keeps its own class when changed in place, and is a usable empty list when its __init__ never calls the inherited one.',
  ['inputs', 'histories'], 'every operation, every content, either or both operands of a derived class',
  'The existing tests never derive from the list types; the fast paths compare types exactly, so derived instances take other paths.',
  ALL, [('exact type checks', '*_init, *_extend, *_add, *_iadd, *_richcompare'), ('allocation', '*_new, *_dealloc')])
p('C30', 'Unsafe console functions move text without change or loss',
  'Unsafe.fputs appends exactly the UTF-8 bytes of the string (without NUL characters) to the C standard output and fflush makes all that was written so far visible; fgets(n) consumes and returns exactly the next line or the next n-1 bytes of the C standard input, whichever is shorter, and the empty string at its end. Strings and bytes that cannot be converted, sizes that are not positive, read errors and failed allocations raise without writing anything; no buffer is leaked.',
  ['inputs', 'histories', 'faults'], 'every text, every input line, every buffer size, sequences of calls, read errors and failing allocations',
  'Tests cannot feed the C streams and do not call these functions with bad, empty or oversized input.',
  ['pyfastutil/src/unsafe/Unsafe.cpp'], [('console access', 'Unsafe.cpp: Unsafe_fputs, Unsafe_fflush, Unsafe_fgets')])
with open(os.path.join(HERE, '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
