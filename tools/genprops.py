"""Writes properties.jsonl (the texts live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None)))


p('M01', 'Raw element moves keep contents and object lifetimes intact',
  'Inserting, erasing, shifting, appending, resizing or destroying a run of elements in raw storage leaves exactly the elements that remain, each once and in its original order, at the positions the operation documents. '
  'No element is constructed over a live one, destroyed twice, read after its destruction or left alive past the new end, and nothing outside the storage is touched. '
  'This holds for every element type, including those with non-trivial copy, move and destruction.',
  ['inputs'], 'every size, capacity, position, count and element value, for an element type about which only the C++ object model is known',
  'the tests use a few sizes and mostly trivially movable types; lifetimes and off-by-one shifts depend on position, count and overlap between source and destination',
  ['src/arrayManipulation.hpp'],
  [('shiftUp / shiftDown', 'src/arrayManipulation.hpp'), ('emplace / insert / erase / append / popBack', 'src/arrayManipulation.hpp'), ('resize / destroy / uninitialized*', 'src/arrayManipulation.hpp')],
  ['element contents, constructor and destructor calls'])

p('M02', 'Buffers grow and shrink without losing, duplicating or leaking elements',
  'Reserving, growing, shrinking and resizing a buffer keeps the elements that fit, unchanged and in order, gives new elements the requested value, and reserving never reduces the capacity. '
  'Every element is destroyed exactly once and every allocation is freed exactly once, and a buffer without free storage beyond its fixed capacity reports an error instead of growing. '
  'A moved-from or freed buffer owns nothing.',
  ['inputs', 'histories'], 'every size, capacity, requested capacity and insertion position; every element type',
  'growth policy and reallocation interact with size and capacity; tests use a handful of sizes and cannot see leaks or double destruction in general',
  ['src/bufferManipulation.hpp', 'src/MallocBuffer.hpp', 'src/StackBuffer.hpp'],
  [('setCapacity / reserve / dynamicReserve / resize / free', 'src/bufferManipulation.hpp'), ('reallocate / free', 'src/MallocBuffer.hpp'), ('reallocate (capacity error)', 'src/StackBuffer.hpp')],
  ['buffer contents, capacity, allocations'], [('capacity', 'number of elements the allocation can hold', 'src/MallocBuffer.hpp')])

p('S01', 'Searching a sorted array gives the exact lower bound and membership',
  'For every sorted sequence, duplicates included, and every value, the search returns the first position whose element does not compare before the value, and membership is reported exactly when the value is present. '
  'The sortedness queries answer true exactly for sequences that are ordered (respectively strictly ordered). Only elements of the sequence are read.',
  ['inputs'], 'every length, content and value, for ascending and for custom comparison',
  'a binary search is wrong only for particular lengths and positions; the tests search a few fixed arrays',
  ['src/sortedArrayManipulation.hpp', 'src/sortedArrayManipulationHelpers.hpp'],
  [('find', 'src/sortedArrayManipulation.hpp'), ('contains', 'src/sortedArrayManipulation.hpp'), ('isSorted / isSortedUnique', 'src/sortedArrayManipulation.hpp')])

p('S02', 'Single insert/remove/de-duplicate keep a sorted set exactly',
  'Inserting a value into a sorted duplicate-free sequence yields the sorted sequence of the old values and that value and reports whether it was new; removing yields the sequence without it and reports whether it was there. '
  'Removing duplicates from a sorted sequence yields each distinct value exactly once, in order. Elements are moved with their lifetimes respected and the companion bookkeeping is told about every position that changes.',
  ['inputs'], 'every length, content, value and element type',
  'the position of the value relative to the ends and the duplicates decides the path taken; tests compare against std::set on small random data',
  ['src/sortedArrayManipulation.hpp', 'src/arrayManipulation.hpp'],
  [('insert (single)', 'src/sortedArrayManipulation.hpp'), ('remove (single)', 'src/sortedArrayManipulation.hpp'), ('removeDuplicates', 'src/sortedArrayManipulation.hpp')])

p('S03', 'Bulk insert/remove on a sorted set are exact union and difference',
  'Inserting a sorted duplicate-free range into a sorted set produces exactly the sorted union, removing one produces exactly the difference, and the returned counts are the numbers of values added and removed. '
  'Every element keeps its lifetime, nothing beyond the announced capacity is touched, and the bookkeeping callbacks describe exactly the moves made.',
  ['inputs'], 'every pair of sorted sequences of any length and interleaving, and every element type',
  'the two-pass merge depends on how the two sequences interleave and where they end; tests sample a few interleavings',
  ['src/sortedArrayManipulation.hpp'], [('insert (range)', 'src/sortedArrayManipulation.hpp'), ('remove (range)', 'src/sortedArrayManipulation.hpp')])

p('S04', 'Sorting yields an ordered permutation and keeps paired data together',
  'Sorting any sequence yields the same elements in order, whatever their initial arrangement and number, and the sorted-unique variant yields each distinct value once. '
  'Sorting two sequences together moves the pairs as units. Sorting always terminates and never touches memory outside the sequence or its own bookkeeping.',
  ['inputs'], 'every length and arrangement, including adversarial ones, all equal, already sorted and reversed',
  'partitioning goes wrong only for particular arrangements, and the explicit stack of pending ranges overflows only for adversarial ones; tests use random data',
  ['src/sortedArrayManipulationHelpers.hpp', 'src/sortedArrayManipulation.hpp'],
  [('insertionSort / unguardedPartition / introsortLoop', 'src/sortedArrayManipulationHelpers.hpp'), ('dualSort / makeSorted / makeSortedUnique', 'src/sortedArrayManipulation.hpp'), ('DualIterator', 'src/sortedArrayManipulationHelpers.hpp')])

p('X01', 'Multi-dimensional indices map one-to-one into the allocated range',
  'For every number of dimensions, layout permutation and shape, valid indices map to distinct offsets within [0, product of the dimensions), and every such offset is hit. '
  'The strides computed for a layout are those of the dense array in that layout, and the validity check accepts exactly the in-range indices.',
  ['inputs', 'configurations'], 'every shape and every index tuple, for each dimension count and permutation supported',
  'tests enumerate small fixed shapes; the map must be one-to-one for all shapes',
  ['src/indexing.hpp', 'src/typeManipulation.hpp', 'src/ArrayView.hpp', 'src/ArraySlice.hpp'],
  [('getLinearIndex / multiplyAll / checkIndices', 'src/indexing.hpp'), ('calculateStrides', 'src/indexing.hpp')])

p('X02', 'Slices and views address exactly the element the full index names',
  'Indexing one dimension at a time, through any chain of slices, reaches the same element as the full multi-dimensional index. '
  'Conversions between arrays, views and slices keep the dimensions, strides and data, and visiting the values of a slice visits each of them exactly once with its own index.',
  ['inputs', 'configurations'], 'every shape, permutation and index', 'tests iterate over a few shapes',
  ['src/ArraySlice.hpp', 'src/ArrayView.hpp', 'src/sliceHelpers.hpp'],
  [('operator[] / operator()', 'src/ArraySlice.hpp'), ('toSlice / toView conversions', 'src/ArrayView.hpp'), ('forValuesInSlice / sumOverFirstDimension', 'src/sliceHelpers.hpp')])

p('A01', 'One-dimensional arrays behave as sequences under every growth operation',
  'Appending, inserting, erasing, popping, clearing and resizing a one-dimensional array produce exactly the sequence these operations denote, whatever the capacity at the time. '
  'The reported size and capacity agree with the storage, capacity never shrinks on growth operations, and every element is destroyed exactly once.',
  ['inputs', 'histories'], 'every size, capacity, position, count and value', 'tests replay short fixed histories against std::vector',
  ['src/Array.hpp', 'src/bufferManipulation.hpp', 'src/arrayManipulation.hpp'],
  [('emplace_back / emplace / insert / erase / pop_back / clear / resize', 'src/Array.hpp')])

p('A02', 'Resizing a multi-dimensional array keeps what it promises to keep',
  'Resizing along the designated dimension keeps every element whose index is still valid at that index (when that dimension is outermost in memory the others are documented as discarded) and gives new elements the default or requested value. '
  'After any resize the dimensions, strides and size are those requested and the allocation holds exactly that many elements. Negative or mismatched requests are reported.',
  ['inputs', 'configurations'], 'every old and new shape, every resize dimension and permutation', 'tests compare a few shapes',
  ['src/Array.hpp', 'src/ArrayView.hpp'], [('resize / resizeDimension / resizeDefault / resizeDefaultDimension', 'src/Array.hpp')])

p('A03', 'Array copies are deep and independent, moves transfer, nothing leaks',
  'A copied array or sorted array equals its source and shares nothing with it; a moved-to one has exactly the content and storage of the source, and the source is left empty and usable. '
  'Copy and move assignment reuse or release what the target owned: every allocation is freed exactly once and every element is destroyed exactly once.',
  ['inputs', 'histories'], 'every content, size and capacity of source and target', 'a double free or leak shows only in particular histories',
  ['src/Array.hpp', 'src/ArrayView.hpp', 'src/bufferManipulation.hpp', 'src/SortedArray.hpp', 'src/SortedArrayView.hpp', 'src/MallocBuffer.hpp'],
  [('copy/move constructors and assignments', 'src/Array.hpp'), ('copy/move constructors and assignments', 'src/SortedArray.hpp')])

p('O01', 'Editing one inner array never disturbs the others',
  'Appending to, inserting into, erasing from, resizing or clearing one inner array of an array of arrays yields exactly that edit there and leaves the size and content of every other inner array unchanged. '
  'Inner arrays never overlap: each stays within its own capacity, growing when an edit needs room.',
  ['inputs', 'histories'], 'every number of inner arrays, their sizes, capacities and the edited position', 'tests mirror edits on a vector of vectors with small random data',
  ['src/ArrayOfArrays.hpp', 'src/ArrayOfArraysView.hpp', 'src/arrayManipulation.hpp'],
  [('emplaceBack / appendToArray / emplace / insertIntoArray / eraseFromArray / resizeArray / clearArray', 'src/ArrayOfArrays.hpp')],
  [], [('offsets', 'start of each inner array in the value buffer', 'src/ArrayOfArraysView.hpp'), ('sizes', 'number of values in each inner array', 'src/ArrayOfArraysView.hpp')])

p('O02', 'Capacity changes and compression preserve every inner array',
  'Changing the capacity of an inner array, reserving, compressing, and appending, inserting or erasing whole inner arrays preserve the content and order of all remaining inner arrays. '
  'Compression leaves no spare room; rebuilding from capacities yields empty inner arrays with at least those capacities.',
  ['inputs', 'histories'], 'every layout of sizes, capacities and gaps', 'shifts of later arrays depend on the whole layout of gaps',
  ['src/ArrayOfArraysView.hpp', 'src/ArrayOfArrays.hpp'],
  [('setCapacityOfArray / compress / resizeFromCapacities / appendArray / insertArray / eraseArray', 'src/ArrayOfArraysView.hpp')])

p('O03', 'Concurrent appends to an inner array each get their own slot',
  'When several threads append to the same inner array with the atomic operations, within the reserved capacity, every appended value is stored in exactly one slot of its own, no value is lost or overwritten and the final size counts them all. '
  'The same holds for additions to rows of a matrix: no contribution is lost.',
  ['schedules', 'inputs'], 'every interleaving of any number of threads', 'races show only under particular schedules',
  ['src/ArrayOfArraysView.hpp', 'src/CRSMatrixView.hpp'], [('emplaceBackAtomic', 'src/ArrayOfArraysView.hpp'), ('addToRow', 'src/CRSMatrixView.hpp')])

p('T01', 'A sorted array is always a sorted duplicate-free set',
  'After any sequence of insertions, removals and clears, of single values or sorted ranges, a sorted array contains exactly the values of the corresponding set, in order, each once. '
  'Reported results and counts, membership and size agree with that set.',
  ['inputs', 'histories'], 'every content, value, range and history', 'tests replay small histories against std::set',
  ['src/SortedArray.hpp', 'src/SortedArrayView.hpp', 'src/sortedArrayManipulation.hpp'], [('insert / remove / clear / contains', 'src/SortedArray.hpp')])

p('T02', 'Every row of an array of sets stays a sorted duplicate-free set',
  'Inserting into or removing from one set yields exactly the union or difference there and leaves all other sets unchanged, growing the capacity when needed. '
  'Sets built by assimilating arrays contain exactly their distinct values.',
  ['inputs', 'histories'], 'every number of sets, content, capacity and value', 'as for arrays of arrays',
  ['src/ArrayOfSets.hpp', 'src/ArrayOfSetsView.hpp'], [('insertIntoSet / removeFromSet / assimilate', 'src/ArrayOfSetsView.hpp')])

p('P01', 'A sparsity pattern keeps sorted, unique, in-range columns in every row',
  'After any sequence of insertions, removals, capacity changes and compressions each row lists exactly the non-zero columns put there, in ascending order, each once, all below the number of columns; other rows are unchanged. '
  'Out-of-range columns or rows are reported where checking is on, and emptiness queries agree with the content.',
  ['inputs', 'histories'], 'every shape, content, row and column', 'tests mirror small random histories',
  ['src/SparsityPattern.hpp', 'src/SparsityPatternView.hpp', 'src/ArrayOfSetsView.hpp'], [('insertNonZero(s) / removeNonZero(s) / empty / numNonZeros', 'src/SparsityPatternView.hpp')])

p('P02', 'Matrix entries stay attached to their columns through every edit',
  'Inserting, removing, compressing and changing row capacities of a sparse matrix keeps every remaining value attached to its column, and new entries carry the value supplied. '
  'Adding to existing entries changes exactly the addressed columns by exactly the supplied amounts; an addressed column that is not in the row is reported in checking builds. Values beyond the row are destroyed exactly once.',
  ['inputs', 'histories'], 'every row content, column list and value list', 'columns and values are two buffers moved in step by callbacks; a slip shows only for particular positions',
  ['src/CRSMatrix.hpp', 'src/CRSMatrixView.hpp', 'src/SparsityPatternView.hpp'], [('insertNonZero(s) / removeNonZero(s)', 'src/CRSMatrixView.hpp'), ('addToRow*', 'src/CRSMatrixView.hpp')])

p('N01', 'Integer conversion preserves the value or reports an error',
  'Converting between any two built-in integer types returns the same mathematical value whenever the target type can represent it. Otherwise the error handler is invoked; a different value is never returned silently.',
  ['inputs', 'configurations'], 'every pair of integer types and every value', 'tests try a dozen boundary values on four type pairs',
  ['src/limits.hpp'], [('integerConversion', 'src/limits.hpp')])

p('N02', 'Elementary math helpers return the exact mathematical result',
  'Minimum, maximum, absolute value, square and conversions return the exact result for every representable argument whose result is representable, and the wrappers of library functions apply the library function of the same name to the argument, at the precision documented for the argument type. '
  'Sine-and-cosine returns both, each in its own output.',
  ['inputs', 'configurations'], 'every argument of every supported type', 'tests compare a few sample values',
  ['src/math.hpp'], [('min / max / abs / square / sqrt / sincos / atan2', 'src/math.hpp')])

p('L01', 'Small-tensor operations compute their algebraic definition in every element',
  'Each fixed-size vector and matrix operation writes to every destination element exactly the value of its algebraic definition over the sources, using every source element in its role, and changes nothing else. '
  'Accumulating variants add to the previous destination; this holds for every size and for every layout of the operands.',
  ['inputs', 'configurations'], 'all real operand values; the sizes instantiated', 'tests use a few integer-valued operands',
  ['src/genericTensorOps.hpp'], [('vector, matrix, matrix-vector and matrix-matrix operations', 'src/genericTensorOps.hpp')])

p('L02', 'Square-matrix operations: determinant, inverse, symmetric storage',
  'For 2x2 and 3x3 matrices the determinant and inverse satisfy their defining equations whenever the determinant is not zero, the symmetric-storage operations agree with the same operation on the dense matrix, and converting between dense and symmetric storage loses nothing.',
  ['inputs'], 'all real matrices with non-zero determinant', 'tests use sample matrices; swapped cofactors agree on symmetric samples',
  ['src/fixedSizeSquareMatrixOps.hpp', 'src/fixedSizeSquareMatrixOpsImpl.hpp'], [('determinant / invert / symInvert / Rij_eq_AikSymBklAjl / denseToSymmetric', 'src/fixedSizeSquareMatrixOpsImpl.hpp')])

p('L03', 'Symmetric eigen-decomposition returns eigenpairs in ascending order',
  'For every symmetric 2x2 matrix the eigenvalues are returned in ascending order and the eigenvectors are orthonormal and satisfy the eigen equation, up to rounding; asking for the eigenvalues alone gives the same ones. For every symmetric 3x3 matrix the eigenvalues come in ascending order and add up to the trace.',
  ['inputs'], 'all symmetric matrices, including repeated and zero eigenvalues', 'tests sample matrices',
  ['src/fixedSizeSquareMatrixOpsImpl.hpp'], [('symEigenvalues / symEigenvectors', 'src/fixedSizeSquareMatrixOpsImpl.hpp')])

p('E01', 'Error checks fire exactly when their condition holds',
  'Every error, assertion and throw check fires exactly when the stated comparison of its arguments holds, for all argument values, evaluates its arguments once, and does nothing otherwise. '
  'When an error check fires the installed error handler runs; when a throw check fires an exception of the requested type carrying the message is thrown.',
  ['inputs', 'configurations'], 'every comparison macro, with and without message, and every pair of arguments', 'tests use no case where neighbouring comparisons differ (equal arguments)',
  ['src/Macros.hpp', 'src/system.cpp'], [('LVARRAY_ERROR_IF_* / LVARRAY_THROW_IF_* / LVARRAY_ASSERT_*', 'src/Macros.hpp'), ('callErrorHandler / setErrorHandler', 'src/system.cpp')])

p('E02', 'Floating-point trapping is enabled, disabled and restored as asked',
  'Enabling or disabling floating-point exceptions changes the trap mask by exactly the given set and returns the previous mask, and a scope guard disables its set on entry and on exit makes everything trap again that trapped on entry, so guards nest. '
  'The default environment traps division by zero, overflow and invalid operations and nothing else.',
  ['inputs', 'histories'], 'every mask and nesting of guards', 'tests try four masks in one order',
  ['src/system.cpp', 'src/system.hpp'], [('enableFloatingPointExceptions / disableFloatingPointExceptions / FloatingPointExceptionGuard / setFPE', 'src/system.cpp')])

p('E03', 'Human-readable byte counts are right for every size',
  'Formatting a number of bytes yields a text in the largest of KB, MB and GB that is not larger than the number (KB for small numbers), with one decimal, whose value agrees with the number to the printed precision; it is never cut short, for every number.',
  ['inputs'], 'every 64-bit size', 'no test covers it', ['src/system.cpp'], [('calculateSize', 'src/system.cpp')])

p('E04', 'Error and signal handlers run as installed and are restored',
  'The error handler installed last runs, once, on every report, replaced handlers are released, and without one the program is aborted. '
  'Signal handling is installed for exactly the fatal signals, and resetting it brings back the handlers that were in place before it was first installed, however often it was installed in between.',
  ['histories'], 'every sequence of installing, reporting and resetting shown in the contracts, any prior handlers', 'tests install a handler once and never reset',
  ['src/system.cpp'], [('setErrorHandler / callErrorHandler', 'src/system.cpp'), ('setSignalHandling / resetSignalHandling', 'src/system.cpp')])

p('E05', 'Stack traces stay inside their buffers and leak nothing',
  'Collecting the frames of a stack of any depth records, in order, the frames after those to be skipped, at most as many as there is room for, and writes nowhere else. '
  'Demangling a name returns the demangled text, or the name itself where there is none, and frees what the demangler allocated.',
  ['inputs'], 'every stack depth, room and number of frames to skip', 'the depth of the stack in a test is fixed',
  ['src/system.cpp'], [('collect / unwindCallback', 'src/system.cpp'), ('demangle', 'src/system.cpp')])

p('C01', 'Copying between slices copies exactly the addressed elements',
  'Copying one contiguous slice to another of the same shape makes the destination equal to the source element by element and changes nothing else; mismatched sizes are reported and nothing is copied.',
  ['inputs'], 'every shape and pair of sub-slices', 'tests copy a few fixed slices', ['src/memcpy.hpp', 'src/umpireInterface.cpp'], [('memcpy', 'src/memcpy.hpp')])

p('I01', 'Parsing array text accepts exactly the documented format',
  'Reading an array from text yields the shape and values written there, and malformed, ragged or too deeply nested text is reported as an error; no input makes the parser touch memory outside its own.',
  ['inputs'], 'every string', 'tests use a dozen strings', ['src/input.hpp'], [('stringToArray', 'src/input.hpp')])

p('J01', 'Printed arrays show every element in order',
  'Printing an array, slice, set or matrix writes each element once, in index order, with the documented nesting.',
  ['inputs'], 'every shape and content', 'tests compare two strings', ['src/output.hpp'], [('operator<<', 'src/output.hpp')])

p('Y01', 'Compile-time index and permutation helpers are exact',
  'Permutation helpers recognise exactly the permutations, give the unit-stride dimension that the layout names, and pack expansion helpers visit every argument once in order; copies from packs to arrays keep the order.',
  ['inputs', 'configurations'], 'every permutation up to the supported size and all argument values', 'tests use a few packs',
  ['src/typeManipulation.hpp'], [('isValidPermutation / getStrideOneDimension / asArray / forEachArg / all_of', 'src/typeManipulation.hpp')])

p('B01', 'Checked builds report every out-of-range access before it happens',
  'With bounds checking on, every element access, insertion, removal or resize with an index outside the valid range is reported through the error mechanism before memory is touched, and no valid access is ever reported.',
  ['inputs', 'configurations'], 'every container, operation and index value, negative ones included', 'death tests use one index past the end',
  ['src/indexing.hpp', 'src/arrayManipulation.hpp', 'src/ArrayView.hpp', 'src/ArraySlice.hpp', 'src/ArrayOfArraysView.hpp', 'src/SortedArrayView.hpp'],
  [('checkIndices / ARRAYMANIPULATION_CHECK_BOUNDS / ARRAYOFARRAYS_CHECK_BOUNDS', 'src')])

p('V01', 'Memory-space moves keep the newest data and never mix host and device',
  'Moving an array between memory spaces makes the newest data visible there and marks it modified exactly when requested.',
  ['histories'], 'every sequence of moves and touches', 'needs CHAI and a device', ['src/ChaiBuffer.hpp'], [('move / registerTouch', 'src/ChaiBuffer.hpp')])

p('V02', 'Python views share storage and respect modification rights',
  'Arrays exposed to Python share memory with the C++ object, honour their access level, and stay valid while Python holds them.',
  ['histories'], 'every sequence of Python operations', 'needs a Python build', ['src/python/PyArray.cpp'], [('PyArray', 'src/python/PyArray.cpp')])

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
