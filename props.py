"""Which contracts decide which property."""
import os
import re


def H(src, *names, **kw):
    return [dict(src=src, name=n, **kw) for n in names]


def names(src):
    """Every contract of a harness file."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', src)) as f:
        return re.findall(r'^HARNESS\( (\w+) \)', f.read(), re.M)


MACROS = ['%s_if_%s%s' % (k, op, m) for k in ('error', 'throw') for op in ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE') for m in ('', '_msg')] + \
    ['error_if', 'throw_if', 'error_always', 'asserts_off']
ASSERTS = ['assert_%s%s' % (op, m) for op in ('EQ', 'NE', 'GT', 'GE') for m in ('', '_msg')] + ['assert_plain', 'assert_msg']
ARRMAN = ['emplace', 'erase', 'emplaceBack', 'popBack', 'insert_range', 'append', 'resize_value', 'resize_default', 'resize_plain', 'destroy',
          'uninitializedCopy', 'uninitializedMove', 'uninitializedShiftDown', 'uninitializedShiftUp', 'shiftUp', 'shiftDown']
INTS = ['%sint%d' % (u, b) for b in (8, 16, 32, 64) for u in ('', 'u')]

PROPS = {
    'M01': dict(harnesses=H('arrman.cpp', *ARRMAN)),
    'N01': dict(harnesses=H('limits.cpp', *(['%s_to_%s' % (a, b) for a in INTS for b in INTS] + ['limits_' + a for a in INTS + ['float', 'double']]))),
    'S01': dict(harnesses=H('sorted.cpp', 'find_int', 'find_greater', 'contains_int', 'isSorted_int', 'isSortedUnique_int')),
    'S02': dict(harnesses=H('sorted.cpp', 'insert_one', 'remove_one', 'removeDuplicates')),
    'E01': dict(harnesses=H('macros.cpp', *MACROS) + H('macros.cpp', *ASSERTS, defs=['ASSERTS'])),
}

SI = ['int8', 'int16', 'int32', 'int64']
UI = ['uint8', 'uint16', 'uint32', 'uint64']
FP = ['float', 'double']
MATH = ['minmax_' + a for a in SI + UI + FP] + ['abs_' + a for a in SI + FP] + ['square_' + a for a in SI + ['uint8', 'uint32']] + \
    ['square_real', 'lib_sqrt', 'lib_sin', 'lib_cos', 'lib_tan', 'lib_asin', 'lib_acos', 'lib_exp', 'lib_log', 'lib_atan2', 'sincos_all', 'invSqrt_all', 'convert_all']
PROPS['N02'] = dict(harnesses=H('math.cpp', *MATH, opts=dict(narrowing=True)))
PROPS['E02'] = dict(harnesses=H('sys.cpp', 'fpe_enable', 'fpe_disable', 'fpe_default', 'fpe_guard', 'fpe_guard_nested', 'fpe_set'),
                    assumptions=['feenableexcept, fedisableexcept and the SSE control register behave as documented (modelled)'])
PROPS['E03'] = dict(harnesses=H('sys.cpp', 'calculateSize'), assumptions=['snprintf formats "%.1f %s" as the C standard says; its output is modelled by a marker'])
PROPS['E04'] = dict(harnesses=H('sys.cpp', 'error_handler', 'error_handler_none', 'signals_set', 'signals_set_twice', 'signals_again'),
                    assumptions=['signal() behaves as documented (modelled)', 'the out-of-line part of std::map is modelled by an unbalanced search tree'])
PROPS['E05'] = dict(harnesses=H('sys.cpp', 'collect', 'demangle'), assumptions=['_Unwind_Backtrace calls the callback once per frame until told to stop (modelled)', '__cxa_demangle returns allocated text or fails (modelled)'])
PROPS['S04'] = dict(harnesses=H('sort.cpp', 'linear_insert', 'computeMedian', 'unguardedPartition', 'dual_linear_insert', 'dual_computeMedian', 'dual_iterator') +
                    H('sort.cpp', 'introsortLoop', 'dual_introsortLoop', defs=['MODULAR']) + H('sort.cpp', 'dual_insertionSort', 'insertionSort', defs=['MODULAR'], weight=9) +
                    H('sort.cpp', 'partition_pivot', 'dual_partition_pivot', defs=['MODULAR_MEDIAN'], weight=7) + H('sort.cpp', 'dualSort', 'makeSorted', defs=['MODULAR_TOP']),
                    assumptions=['std::sort sorts and permutes, as the C++ standard says (host makeSorted)'])

TENSOR = names('tensor.cpp')
PROPS['L01'] = dict(note='Compile-time sizes are sampled (those in the contract names), values are arbitrary. ', harnesses=H('tensor.cpp', *TENSOR), assumptions=['the operations are templates over their sizes; each is proved for the sizes listed in the harness names, all element values'])
PROPS['L02'] = dict(harnesses=H('matrix.cpp', *[n + d for n in ('determinants', 'inverts', 'symInverts', 'symProducts', 'storage', 'mixed') for d in '23']))
PROPS['L03'] = dict(harnesses=H('eigen.cpp', 'eigen2', 'max6') + H('eigen.cpp', 'shifted3', weight=3) + H('eigen.cpp', 'eigen3', defs=['MODULAR']))

PROPS['S03'] = dict(harnesses=H('bulk.cpp', 'bulk_insert', 'bulk_remove', weight=9) + H('bulk.cpp', 'lemma_count_insert', 'lemma_count_remove') +
                    H('sorted.cpp', 'find_int') + H('arrman.cpp', 'shiftUp', 'shiftDown'),
                    assumptions=['the range is read through plain pointers; find, shiftUp and shiftDown are used through their contracts, which are proved here'])

import itertools
LAYOUTS = ['layout_' + ''.join(map(str, q)) for n in (1, 2, 3, 4) for q in itertools.permutations(range(n))]
PROPS['X01'] = dict(note='One to four dimensions, every permutation. ', harnesses=H('index.cpp', *LAYOUTS, opts=dict(overflow='assume')), assumptions=['products of extents are representable in the index type', 'up to four dimensions, every permutation of them'])
PROPS['X02'] = dict(note='Views of three dimensions; visits and sums for extents up to 1000. ', harnesses=H('slices.cpp', *names('slices.cpp'), opts=dict(overflow='assume')) + H('index.cpp', 'chain_usd0', 'chain_usd1', 'chain_usd2', 'chain_strided', opts=dict(overflow='assume')),
                    assumptions=['index arithmetic and sums of values stay representable', 'views of three dimensions, slices of one to three, with each choice of unit-stride dimension or none',
                                 'visits and sums: extents up to 1000 (65536 where addresses are compared)', 'views are over a MallocBuffer whose storage is given'])
PROPS['M02'] = dict(harnesses=H('buffer.cpp', *names('buffer.cpp')),
                    assumptions=['a buffer is its storage and its capacity (checked at the start of every contract); malloc does not fail',
                                 'MallocBuffer and StackBuffer; ChaiBuffer is not covered (V01)'])

GROW = ['emplace_back', 'emplace', 'insert', 'pop_back', 'erase', 'resize', 'resizeDefault', 'reserve', 'clear', 'fresh', 'element']
ARRAY = ['arrays are over a MallocBuffer, element type Tr (any C++ element type whose operations do not throw)', 'index arithmetic stays representable; malloc does not fail']
PROPS['A01'] = dict(harnesses=H('array.cpp', *GROW, opts=dict(overflow='assume')), assumptions=ARRAY)
PROPS['A03'] = dict(note='One dimension, two dimensions with an inner extent of 3, and sorted arrays. ', harnesses=H('array.cpp', *[n for n in names('array.cpp') if n not in GROW], opts=dict(overflow='assume')),
                    assumptions=ARRAY + ['arrays of one dimension, and of two with an inner extent of 3 in both layouts; sorted arrays'])

NOT_APPLICABLE = {
    'A02': 'the stride and size of a resized array are products of several unbounded extents, and the loop of resizeDefaultDimension shifts by such products: the invariants are nonlinear and Z3 does not discharge them; only fixed inner extents would be in reach, which is a sample of the property (the one-dimensional part is claimed as A01)',
    'O01': 'the invariant relates every offset, size and capacity of an unbounded number of inner arrays in one buffer (a quantified, nested heap invariant); the verifier proposes no loop invariant of that form, and its frame reasoning has no ghost partition of one buffer; the moves inside one inner array are claimed as M01',
    'O02': 'needs the same nested heap invariant over all inner arrays as O01, with prefix sums of capacities over an unbounded number of arrays',
    'O03': 'the guarantee is about interleavings of atomic operations; the verifier is sequential (no interference or rely/guarantee reasoning), so no contract it decides can state it',
    'T01': 'not claimed: the operations it is built from are under contract (S01 to S04, A03 for copies and moves, M02 for growth), but the contracts of the SortedArray methods themselves are not finished',
    'T02': 'needs the nested heap invariant of O01 with sortedness of every inner array; the operations on one sorted range are claimed as S01 to S04',
    'P01': 'a sparsity pattern is an array of sets: it needs the nested heap invariant of O01, which the verifier cannot express',
    'P02': 'two buffers (columns and entries) that move in step below the nested heap invariant of O01, which the verifier cannot express',
    'C01': 'not claimed: no contract for the copy between slices is finished',
    'I01': 'the parser works on iostreams and std::string, whose bodies are compiled into libstdc++; contracts for them would be assumed and would carry the whole argument',
    'J01': 'the guarantee is about iostream formatting; the iostream bodies are outside the program that is verified',
    'Y01': 'not claimed: no contracts for these helpers are finished; most are decided at compile time, and indexing, which uses the permutation helpers, is claimed as X01',
    'B01': 'not claimed: the contracts of the checked build are not finished',
    'V01': 'ChaiBuffer needs CHAI, Umpire and a device memory space; none is installed, the code is compiled out without them, and a host-only stand-in would be a model of CHAI rather than of this code',
    'V02': 'the Python binding needs the Python and NumPy C APIs with their reference counting; contracts for those would be assumed, not proved, and the module is not built here',
}
