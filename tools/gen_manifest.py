#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json from the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..'))
sys.dont_write_bytecode = True
from engine import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    P = props.PROPS.get(i)
    if not P:
        na.append({'property': i, 'reason': props.NA.get(i, 'check not built yet')})
        continue
    checks.append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': './check.py %s --thorough' % i,
                   'technique': P.get('technique', 'symbolic execution of the LLVM IR of the sources with Z3, bounded; '
                                      'counterexamples replayed on the built extension'),
                   'level': P.get('level', 'model_checking'),
                   'level_note': P.get('note', 'All paths within the stated bounds are decided by the solver on the code regenerated from '
                                       '/repo; trusts clang\'s IR generation, the models of CPython/libc and the reference model '
                                       '(all cross-checked by running completed paths on the real extension).')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'check.py <id> [--thorough]; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
FIXED = [
 ('C01', '03a4dec', 'integers were decoded and encoded through CPython internals: wrong values at digit boundaries and for some widths'),
 ('C08', 'c283e0e', 'the vectorised sort lost or misplaced elements for lengths that are not a power of two'),
 ('C10', '0ef9a95', 'from_range produced wrong lengths for negative and non-dividing steps and overflowed at 64-bit extremes'),
 ('C19', '0d655c2', 'containers were constructed twice (leak) and constructor errors were lost'),
 ('C04', '1dbe2ff', 'extend, + and += lost errors of the iterable and mishandled references'),
 ('C03', 'e7645b1', 'slice assignment and deletion misplaced elements, leaked or crashed for crossed and self-referential slices'),
 ('C05', 'cabc5b9', 'int list lookups truncated large values and mis-clamped start/stop'),
 ('C06', '8375507', 'object list comparisons were not lexicographic and lookups used identity only'),
 ('C09', '9349e76', 'a failing or list-changing key/comparison during sort lost elements or crashed'),
 ('C07', '72e35af', 'repetition, clear, resize and reverse mishandled sizes, references and overlapping copies'),
 ('C12', '5ad2610', 'iterators read outside the list when it changed and did not keep it alive'),
 ('C27', '2fb5cea', 'repr crashed on failing items and recursed without end on self-reference'),
 ('C20', 'ba49863', 'buffers did not own their list and dangled when it was resized'),
 ('C24', 'cc444ef', 'SIMD functions touched memory before checking their arguments and used aligned stores on unaligned addresses'),
 ('C22', 'a581f7c', 'Unsafe.as_object did not own what it returned; realloc to size 0 and fgets mishandled ownership'),
 ('C26', 'f1e52d4', 'AVX-512 was reported without the opmask and ZMM state being enabled by the operating system'),
 ('C12', '4d98ec5', 'iterator types were never readied: it.__next__ and isinstance(it, Iterator) raised AttributeError'),
 ('C16', '9aca565', 'constructors replaced any error raised by __iter__ with TypeError'),
 ('C24', '91a6695', 'reversing 16 byte elements with AVX2 swapped the halves of each element'),
 ('C16', '9f23480', 'IntLinkedList.append returned None with an exception set for elements that are not ints'),
 ('C28', 'c0d05f9', 'no type was readied at import: attributes of instances (x.append as a value, hasattr) were missing until the class was looked at'),
 ('C29', 'a6cf0dd', 'x.extend(x) and x += x never ended for an instance of a subclass'),
 ('C29', 'c4cb672', 'adding an instance of a subclass raised TypeError'),
 ('C30', '5225d06', 'Unsafe.fgets(1) reported a read error'),
]
FINDINGS = []
json.dump({'findings': FINDINGS, 'fixed': ['fixed: property=%s %s %s' % f for f in FIXED + props.MORE_FIXED]},
          open(os.path.join(HERE, '..', 'known_findings.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
