#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of truth for the list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

C1='il/container/1d/'; C2='il/container/2d/'; C3='il/container/3d/'; C4='il/container/4d/'; H='il/container/hash/'
prop('C01', 'il::Array behaves as a growable sequence under every history',
 'After any sequence of constructions, element writes, appends, resizes, reserves, copies, moves and assignments, an il::Array holds exactly the elements the equivalent mathematical sequence holds, in order, for trivial and non-trivial element types. Growing never loses or reorders existing elements, shrinking keeps the prefix, capacity is never below size, and no reallocation (change of data()) happens while the requested size fits the reported capacity. Operations on one array never change another.',
 ['histories','inputs'], 'all finite histories of Array operations over several live arrays, element types (trivial, non-trivial) and build modes (checked, release)',
 'Array_test.cpp runs fixed three-to-five-step scripts; the defects live in combinations (grow after shrink, assign over a larger array, append at exact capacity) it does not reach.',
 [C1+'Array.h','il/core/memory/allocate.h'],
 [('capacity bookkeeping and reallocation','Array::IncreaseCapacity'),('in-place vs reallocating assignment','Array::operator='),('resize','Array::Resize')],
 ['size()','capacity()','operator[]','back()','view()','begin()/end()','data()'],
 [('elements','sequence of values','[data_,size_)'),('capacity','slots available','capacity_')])
prop('C02', 'Every element a container stores is constructed once and destroyed once',
 'For every history of any owning container holding a class type, each element object is constructed exactly once in memory that holds no live object, is read, assigned or destroyed only while alive, and is destroyed exactly once; when all containers are gone no element is alive. Every heap block the containers allocate is released exactly once and nothing is read or written outside live blocks.',
 ['histories'], 'all histories over Array, SmallArray, StaticArray, Array2D/2C, Array3D/3C, Array4D/4C, Lower/UpperArray2D, Deque, Map, Set, MapArray, Tree with a non-trivial element type',
 'The Dummy class of the tests counts only a few constructions on one path; leaks and double destructions need particular size/capacity relations between source and destination.',
 [C1+'Array.h',C1+'SmallArray.h',C2+'Array2D.h',C2+'Array2C.h',C3+'Array3D.h',C3+'Array3C.h',H+'Map.h',H+'Set.h',H+'MapArray.h','il/container/deque/Deque.h','il/container/tree/Tree.h'],
 [('placement new / explicit destructor pairs','all container constructors, Resize, operator=, destructors'),('allocateArray/deallocate','il/core/memory/allocate.h')],
 ['special member functions of the element type','heap block allocation and release'])
prop('C03', 'Requested memory alignment holds for the whole life of an aligned array',
 'An Array, Array2D or Array2C constructed non-empty with an alignment request keeps it through every growth, reserve, resize, copy and move: the address of data() is congruent to the requested residue modulo the requested modulus, and alignment() reports the request. For aligned 2D arrays, every column (2D) or row (2C) starts at an address that is a multiple of the requested alignment, and the padding never makes two logical elements share storage.',
 ['inputs','histories'], 'all admissible (element type, alignment, residue, modulus, size) combinations and subsequent histories',
 'Tests check one or two alignment constants right after construction, never after growth or assignment between arrays with different alignment.',
 [C1+'Array.h',C2+'Array2D.h',C2+'Array2C.h','il/core/memory/allocate.h'],
 [('allocateArray with residue and modulus','il/core/memory/allocate.h'),('capacity rounding','Array2D/Array2C aligned constructors'),('alignment preserved on growth','IncreaseCapacity/Reserve/Resize')],
 ['data()','alignment()','stride()','element addresses'])
prop('C04', 'Two-dimensional arrays keep every logical element under any history',
 'After any history of construction, writes, Resize, Reserve, row/column-major variants, copy, move and assignment, element (i0,i1) of an il::Array2D or il::Array2C is the value last written to that logical position, with sizes as requested. Resizing preserves the overlap of the old and new index ranges and gives new positions the fill value (or a default-constructed object); reserving changes only capacities; stride() matches the actual element spacing.',
 ['histories','inputs'], 'all histories over several live 2D arrays, shapes including empty dimensions, trivial and non-trivial elements, checked and release builds',
 'Array2D_test.cpp samples single resizes; overlap/capacity cases where only one of two dimensions needs memory, or an array that has slack, are mostly unvisited.',
 [C2+'Array2D.h',C2+'Array2C.h'],
 [('two-capacity growth','Array2D::Resize/Reserve'),('in-place and reallocating assignment','Array2D::operator=')],
 ['operator()(i0,i1)','size(d)','capacity(d)','stride(d)','view()'])
prop('C05', 'Three- and four-dimensional arrays keep every logical element',
 'After any history of construction, writes, Resize, Reserve, copy, move and assignment, each element of an Array3D, Array3C, Array4D or Array4C addressed by its full index is the value last written there, for every shape. Resizing preserves the intersection of old and new index boxes, reserving changes only capacities, and the arrays never alias each other.',
 ['histories','inputs'], 'all histories over several arrays of rank 3 and 4 in both orders',
 'Only a few Array3D constructors are tested; Array3C, Array4D and Array4C have no tests.',
 [C3+'Array3D.h',C3+'Array3C.h',C4+'Array4D.h',C4+'Array4C.h'],
 [('index linearisation','operator()(i0,i1,i2[,i3])'),('in-place shrink/grow','Resize')], ['operator()','size(d)','capacity(d)'])
prop('C06', 'Views alias exactly the selected elements',
 'A view or edit of an array, matrix, row, column, sub-range or sub-rectangle (including views of views and views of arrays with spare capacity) reads and writes exactly the selected elements of the underlying container and no other. Writes through the container are seen by the view and writes through the edit are seen by the container, and the view sizes equal the selected extents.',
 ['inputs','histories'], 'all sub-range compositions on Array, Array2D, Array2C, Array3D with and without slack capacity',
 'Tests take one view of a freshly built array, where size and capacity coincide; wrong strides only show when they differ or when views are nested.',
 [C1+'ArrayView.h',C2+'Array2DView.h',C2+'Array2CView.h',C3+'Array3DView.h',C2+'Array2D.h',C2+'Array2C.h'],
 [('stride propagation','view()/Edit() overloads')], ['elements read through views','elements changed by edits'])
prop('C07', 'Small and static arrays behave as their mathematical value',
 'SmallArray behaves as a growable sequence across the boundary between inline and heap storage under append, resize, reserve, copy, move and assignment. StaticArray, StaticArray2D/2C, StaticArray3D and StaticArray4D are value types: construction from lists or a value, element writes, copies and copies-of-copies address each index independently.',
 ['histories','inputs'], 'all histories around the inline capacity; all index tuples of the static arrays',
 'No SmallArray test exists; static arrays are tested for one shape.',
 [C1+'SmallArray.h',C1+'StaticArray.h',C2+'StaticArray2D.h',C2+'StaticArray2C.h',C3+'StaticArray3D.h',C4+'StaticArray4D.h'],
 [('inline buffer switch','SmallArray'),('index linearisation','StaticArray*D::operator()')], ['operator[]','operator()','size()','capacity()'])
prop('C08', 'Packed, banded and sparse-by-shape matrices map indices one-to-one',
 'In LowerArray2D, UpperArray2D, TriDiagonal and BandArray2C, every admissible index pair addresses its own element: writing one never changes another, and copies, moves and assignments preserve every admissible element. Sizes are as requested.',
 ['inputs','histories'], 'all sizes and admissible index pairs, and histories of copies/moves/writes',
 'These types have no unit tests or a single constructor test.',
 [C2+'LowerArray2D.h',C2+'UpperArray2D.h',C2+'TriDiagonal.h',C2+'BandArray2C.h'],
 [('triangular linearisation','operator()(i0,i1)')], ['operator()(i0,i1)','size()'])
prop('C09', 'il::Map is a finite map under every history of operations',
 'After any history of insertions, overwrites, lookups, erasures, reservations, clears, copies and moves, an il::Map contains exactly the key/value pairs of the mathematical map with that history, for integer and string keys, whatever the collisions and tombstones: every present key is found with its last value, absent keys are reported absent, size matches, and iteration visits each pair exactly once. Probing always terminates.',
 ['histories','inputs'], 'all histories of Map operations, adversarial keys, table sizes and tombstone patterns',
 'Map_test.cpp does a handful of inserts; rehash with collisions, tombstone reuse, and erase/insert churn are unreached.',
 [H+'Map.h',H+'HashFunction.h'],
 [('open addressing with quadratic probing and tombstones','Map::search/searchCString'),('growth','Map::ReserveWithP / Grow'),('erase','Map::erase')],
 ['search/found','value','nbElements','iteration'],
 [('bucket_','slots: empty, tombstone or pair','Map.h'),('nb_elements_, nb_tombstones_','occupancy counters','Map.h')])
prop('C10', 'il::Set is a finite set under every history of operations',
 'After any history of additions, lookups, reservations, clears, copies and moves, an il::Set contains exactly the elements added since the last clear, each once; membership answers and the element count agree, and iteration visits each element once.',
 ['histories','inputs'], 'all histories of Set operations with colliding keys',
 'Set has no unit test at all.',
 [H+'Set.h',H+'HashFunction.h'], [('open addressing','Set::search'),('growth','Set::Grow')], ['search/found','nbElements','iteration'])
prop('C11', 'il::MapArray keeps insertion order and agrees with its index',
 'After any history of distinct-key insertions, value updates, lookups, copies, moves and reservations, an il::MapArray lists the key/value pairs in insertion order, and searching a key returns exactly the position of that key (or absent). Growth and rehashing never change the order, keys or values.',
 ['histories','inputs'], 'all histories over integer and string keys with collisions',
 'Tests insert two or three keys and never cross a rehash.',
 [H+'MapArray.h',H+'HashFunction.h'], [('index map + array','MapArray::Set/search')], ['search','key(i)','value(i)','nbElements','iteration'])
prop('C12', 'il::Deque is a double-ended queue under every history',
 'After any history of pushes and pops at both ends, copies, moves and reservations, an il::Deque holds exactly the elements of the mathematical deque in order, wherever they lie in its circular storage of fixed capacity; a moved-from deque is empty, and pushing into a full deque stops the program instead of losing an element.',
 ['histories'], 'all histories of PushFront/PushBack/PopFront/PopBack/Front/Back/Reserve, copies and moves',
 'Deque has no unit test.', ['il/container/deque/Deque.h'],
 [('circular indexing','Deque'),('full and empty conditions','Deque::PushFront/PushBack/PopFront/PopBack')], ['front()','back()','size()','capacity()'])
prop('C13', 'il::Tree child and parent relations match how it was built',
 'For every tree built by adding numbered children and setting values, in any order, each node reports the value last set (and whether one was), its children are exactly the ones added, the parent of a child is the node it was added under, and depth is the length of the longest path from the root; adding a node changes no other node.',
 ['programs','histories'], 'all construction sequences, for every number of children per node',
 'Tree_test builds one small binary tree.', ['il/container/tree/Tree.h'], [('spot indices into arrays','Tree'),('child flags','Tree::AddChild')], ['value','parent','child','children','hasChild','isEmpty','depth'])
prop('C14', 'il::String owns a correct null-terminated byte string under every history',
 'After any history of constructions, appends of strings, literals, characters, code points and repeated characters, inserts, copies, moves, assignments, reserves and clears, an il::String holds exactly the expected bytes and a terminating zero, across the small/large storage boundary and including aliased arguments; its capacity is never below its size. Equality and ordering-free comparison, substrings, prefix, suffix, containment and search answers agree with the byte content.',
 ['histories','inputs'], 'all histories with lengths around the 22/23-byte inline limit and beyond',
 'String_test.cpp checks selected lengths only; transitions small-to-large-to-small and aliasing appends are not visited.',
 ['il/container/string/String.h'], [('small string optimisation','String::setSmall/Large'),('growth','String::Grow/Reserve')],
 ['asCString','size','capacity','operator==','isSmall'])
prop('C15', 'Conversions between UTF-8 and UTF-16 are exact inverses',
 'For every sequence of Unicode scalar values, encoding as UTF-8, converting to UTF-16 and back yields the same bytes, both conversions agree with the Unicode encoding forms, and appending a code point followed by iterating over code points returns it. Sizes in bytes, units and code points are the exact ones.',
 ['inputs'], 'all Unicode scalar values and concatenations',
 'Tests check a handful of code points, never all boundary values or the conversions.',
 ['il/container/string/unicode.h','il/container/string/String.h','il/container/string/UTF16String.h'],
 [('encode/decode','toCodePoint/nextRune/Append(rune)')], ['bytes','units','code points'])
prop('C16', 'il::Dynamic always reports and returns the value last stored',
 'After any history of stores, copies, moves and self-assignments, an il::Dynamic reports exactly the type of the last stored value and returns it unchanged for every supported alternative (null, bool, integers over their whole range, double, string, arrays, 2D arrays and maps), and copies are deep: changing one never changes another.',
 ['histories','inputs'], 'all histories over all alternatives, including boundary integers and nested arrays/maps',
 'Dynamic_test samples each alternative once; boundary values of the packed representation and type changes on assignment are not covered.',
 ['il/container/dynamic/Dynamic.h','il/container/dynamic/Type.h'], [('NaN-boxing style tagging','Dynamic.h'),('deep copy / release by tag','Dynamic copy/move/destroy')],
 ['type()','is<T>/to<T>/as<T>'])
prop('C17', 'Error reports carry exactly what was recorded',
 'An il::Info returns for each key the last value recorded with its type and reports unset keys absent, for any number, order and length of keys and values, and survives copies and moves. An il::Status returns the last set outcome, error and attached information, and in checked builds destroying an error status that was never examined aborts while one that was examined, moved from or ok-and-checked does not.',
 ['histories'], 'all histories of Info::Set/to*/is*, and Status set/check/abortOnError/move',
 'Info_test and Status_test set one or two keys; growth across small/large storage and re-setting are not covered.',
 ['il/container/info/Info.h','il/container/info/Status.h'], [('inline buffer of tagged records','Info.h'),('to_check_ flag','Status.h')],
 ['is*/to*','ok()','error()'])
prop('C18', 'Safe arithmetic is exact or flags an error',
 'For every choice of operands of the supported integer types, safe sum, difference, product, division, conversion and upward rounding either return the exact mathematical result with the error flag false, or set the error flag, and they set it exactly when the result is not representable (for products of three or four factors also possibly when the product of some of the factors is not representable). Integer powers, absolute values, floor to a multiple of a positive integer, powers of two, base two logarithms, the least and the greatest of several values, rounding down of fractions, and moduli and conjugates of complex numbers are exact whenever their result is representable.',
 ['inputs'], 'all operand pairs, in particular at the boundaries of every integer width',
 'Tests sample a few overflow cases per function.', ['il/core/math/safe_arithmetic.h','il/math.h'], [('range tests before arithmetic','safe_arithmetic.h')],
 ['returned value','error flag'])
prop('C19', 'Array algorithms return the mathematically defined answer',
 'For every array, minimum, maximum, maximum absolute value, mean, variance, binary search and sorting return what their definition says, on the whole array or on a range of it: extremes are attained and bound every element, sorting yields an ordered permutation (of arrays of any length, however they are ordered before, with a stack that does not grow with the array), and the binary search of a sorted array finds an index if and only if the value is present.',
 ['inputs'], 'all arrays, including duplicates, negative and single elements, and sub-ranges',
 'Tests sample sorted arrays of a few elements.', ['il/algorithm/algorithmArray.h','il/algorithm/algorithmArray2D.h'], [('linear scans and bisection','algorithmArray.h')], ['returned value','array after the call'])
prop('C20', 'Checked builds stop every out-of-contract access before it happens',
 'In checked builds, every element, row, column, view, slot or substring access outside the documented bounds, and every construction with a negative size, aborts before reading or writing memory and leaves all objects unchanged, while every access inside the bounds succeeds.',
 ['inputs','histories'], 'all index values including negative, equal to size and huge, on every container at every point of a history',
 'Tests try one bad index for a few containers.', [C1+'Array.h',C1+'ArrayView.h',C1+'StaticArray.h',C1+'SmallArray.h',C2+'Array2D.h',C2+'Array2C.h',C3+'Array3D.h','il/core/core.h'],
 [('IL_EXPECT_* macros','il/core/core.h and every accessor')], ['abort or value'])
prop('C21', 'Copies are independent and moves transfer the whole value',
 'For every container and value type of the library, a copy equals its source and later changes to either never affect the other, a moved-to object equals the former source, the moved-from object is empty and reusable, and self-assignment changes nothing - whatever the previous contents, sizes and storage modes of both objects.',
 ['histories'], 'all histories of copy/move construct/assign over pairs and triples of objects of every container type',
 'Tests copy into fresh objects; assignment over a previously used larger or smaller object and self-assignment are mostly untested.',
 [C1+'Array.h',C1+'SmallArray.h',C2+'Array2D.h',C3+'Array3D.h',H+'Map.h','il/container/string/String.h','il/container/dynamic/Dynamic.h','il/container/info/Info.h'],
 [('copy/move special members','every container')], ['full content of every live object after each step'])
prop('C22', 'NumPy files round-trip and malformed files are reported, never trusted',
 'Saving any array or matrix of doubles or of 32-bit or 64-bit integers to .npy and loading it back yields the same shape and elements, and the file is a well-formed version-1 .npy with the right dtype, order and shape. Loading a file that is missing, truncated, of the wrong element type, order or rank, or with a malformed header reports an error status instead of crashing or returning data, and no file handle stays open.',
 ['inputs','crash_points'], 'all shapes including empty ones and matrices with spare capacity; all truncation points and header corruptions',
 'Tests save one small array; no truncation or corruption is tried.', ['il/io/numpy/numpy.h','il/io/numpy/numpy.cpp'], [('header writer/parser','getNumpyInfo/saveNumpyInfo')], ['file bytes','loaded value','status'])
prop('C23', 'The TOML parser accepts exactly valid documents and yields their meaning',
 'For every document in the supported TOML subset, loading succeeds and yields exactly the keys, types and values that TOML assigns (integers, floats, booleans, basic and literal strings with escapes, arrays, inline tables, tables, nested tables, arrays of tables, comments), independent of layout. Invalid documents yield an error status, never a crash, a hang or a silently wrong value.',
 ['inputs'], 'all documents generated from the abstract grammar, and corruptions of them',
 'toml tests load one small document per feature.', ['il/io/toml/toml.h','il/io/toml/toml.cpp'], [('recursive descent over lines','TomlParser')], ['loaded map','status'])
prop('C24', 'Saving a configuration as TOML and loading it back is lossless',
 'For every map of supported values (booleans, integers, floating point, strings, arrays, nested maps), saving it to TOML and loading the file yields an equal map with the same types.',
 ['inputs'], 'all nested maps over the supported value types',
 'Only one flat map is saved in the tests.', ['il/io/toml/toml.h','il/io/toml/toml.cpp'], [('SaveHelperToml','toml.h'),('TomlParser','toml.cpp')], ['loaded map'])
prop('C25', 'Dense matrix and vector products equal their mathematical definition',
 'For every shape, scalar factor, transposition and storage order supported, dot products, matrix-vector and matrix-matrix products (BLAS-backed and static) and their in-place accumulating forms give the value of the mathematical definition, including for sub-matrix views with stride larger than their size, and leave all other elements untouched. Incompatible shapes abort in checked builds.',
 ['inputs'], 'all small integer matrices, shapes, strides, transpose/star combinations and scalars',
 'Tests multiply one or two square matrices whose stride equals their size.', ['il/linearAlgebra/dense/blas/blas.h','il/linearAlgebra/dense/blas/dot.h','il/linearAlgebra/dense/blas/blas_static.h','il/linearAlgebra/dense/blas/cross.h'],
 [('BLAS parameter selection','blas.h'),('explicit loops','dot.h, blas_static.h')], ['result matrices'])
prop('C26', 'Factorisations and dense solvers satisfy their defining equations',
 'For every nonsingular matrix, LU, Cholesky, QR and the linear solvers return factors and solutions satisfying their defining equations (P*L*U=A, A*x=b, A*inverse=I, determinant), for any stride and right-hand side shape, leaving const inputs unchanged; singular matrices are reported as errors, not solved. Eigenvalues and singular values are those of the matrix. Vector and matrix norms equal their definition.',
 ['inputs'], 'all integer matrices with integer solutions of bounded size, with pivoting, padding and multiple right-hand sides',
 'Tests solve one well-ordered system with contiguous storage.', ['il/linearAlgebra/dense/factorization/LU.h','il/linearAlgebra/dense/factorization/linearSolve.h','il/linearAlgebra/dense/norm.h'],
 [('LAPACK parameter selection','factorization/*.h'),('norm loops','norm.h')], ['solutions','factors','status'])
prop('C27', 'Sparse matrices and their products agree with the dense definition',
 'For every sparse matrix in compressed row form, element access, row iteration, matrix-vector products, sums and the norms and solvers built on it agree with the dense matrix of the same entries; copies and moves preserve all entries.',
 ['inputs'], 'all sparsity patterns of small matrices, including empty rows',
 'Tests use one or two fixed patterns.', [C2+'SparseMatrixCSR.h','il/linearAlgebra/sparse/blas/sparseBlas.h'], [('CSR row/column arrays','SparseMatrixCSR')], ['element(i,k)','products'])
prop('C28', 'Binary data files written by filepack load back the same values',
 'For every map of supported values, saving it as a filepack (.data) file and loading it, as an il::MapArray or as an il::Map, yields equal keys, types and values. A value the format does not support is reported as an error when saving, and a missing or truncated file is reported as an error when loading.',
 ['inputs'], 'all nested maps over the supported value types', 'No test exists for filepack.', ['il/io/filepack/filepack.h'], [('length-prefixed records','filepack.h')], ['loaded map'])
prop('C29', 'Iterative solvers converge to the solution of the system they were given',
 'Within their stated tolerance and iteration limits, GMRES and conjugate gradient return a vector solving the given operator equation, and a converged report is given only when the residual meets the tolerance.',
 ['inputs'], 'all well-conditioned small integer systems', 'One or no test each.', ['il/linearAlgebra/matrixFree/solver/Gmres.h','il/linearAlgebra/matrixFree/solver/Cg.h'], [('Krylov iteration','Gmres.h, Cg.h')], ['solution','norm'])
prop('C30', 'Binary files give back the bytes they hold, whatever the buffering',
 'For every history of opening, reading, skipping, writing and closing, an il::File opened for reading returns the bytes of the file at its position, in order, whatever the size of its buffer and however reads of single objects, blocks and skips are mixed; a read that goes beyond the end, a file that cannot be opened and bytes that could not be stored are reported as errors. A file opened for writing holds exactly the bytes written once it is closed. Operations on files that are not open, or open in the other mode, abort in checked builds, and no handle is left open.',
 ['inputs','histories'], 'all histories of reads, skips and writes on files up to several buffers long, for every buffer size',
 'No test uses il::File.', ['il/io/File.h'], [('buffered reads','File::Read, File::Skip')], ['bytes read','status','file bytes','open handles'])
prop('C31', 'The name of a file decides its format, and what has no format is an error',
 'il::save and il::load use the format named by the end of the file name (.npy for arrays, .toml and .data for tables) for every type that has it, and give back what was saved. A name without a known ending, a type that the format does not hold, and a file whose content is of another format or type are reported as errors; a failed save and every load leave all files as they were, create none and leave no handle open.',
 ['inputs','histories'], 'all pairs of a type and a name, after every history of saves, copies and damaged files',
 'Tests save and load each format under one well-formed name.', ['il/io/io_base.h','il/io/numpy/numpy.h','il/io/toml/toml.h','il/io/filepack/filepack.h'], [('dispatch on the ending','fileType, load, save in io_base.h'),('what a type supports','specialisations of the helpers')], ['status','loaded value','files of the directory'])
prop('C32', 'A PPM image file loads as exactly its image, and no other file as an image',
 'il::readPpm gives, for a binary PPM file (P6, any comment lines after the magic number, sizes and 255 separated by any white space, pixels), an image of its width and height whose pixel (i, j) is the one of column i and row j of the file; whatever follows the pixels does not matter. Truncated at any byte, with another magic number or depth, with sizes that the file cannot hold, or missing, the file is reported as an error; no file hangs or crashes the reader, changes on the disk, or stays open.',
 ['inputs'], 'all images, layouts of the header, and damages of a file',
 'No test reads an image: the header does not even compile with the tests.', ['il/io/ppm/ppm.h'], [('parsing the header','readPpm'),('the pixels','readPpm, the read of the rows')], ['status','size and pixels of the image','open handles'])
prop('C33', 'Timers, benchmarks and durations tell exactly the time that went by',
 'A timer tells the sum of the intervals between each Start and its Stop since it was made or reset, whatever other timers, sleeps or copies do; it starts only when stopped and stops only when started (checked builds stop the program otherwise); sleeping ends at the given time and never earlier. A benchmark runs its program with a growing number of iterations until it lasts half of the time goal, and gives the mean time of an iteration of the last run, without what was paused. A duration is written in the largest unit that it reaches, with its value in that unit.',
 ['histories','inputs'], 'all interleavings of timers with a clock, all costs of a program, all durations',
 'Timing is not tested: tests cannot set the clock.', ['il/benchmark/tools/timer/Timer.h','il/benchmark/tools/timer/Benchmark.h','il/unit/time.h'], [('accumulated time','Timer::Start, Stop, Reset, time'),('iterations of a benchmark','benchmark, benchmark_short, BState'),('units','time_toString')], ['times told','instants at which sleeps end','runs of the benchmarked program','text'])
prop('C34', 'Low-discrepancy points fill their box evenly, whatever their number',
 'il::sobol gives nb_point points of dim coordinates in [a, b): with the corner, which is left out, every block of 2^m points counted from the start has exactly one point in each of 2^m equal cells of every coordinate, and for the first two coordinates one in each box of 2^i times 2^(m-i) cells. Asking for more points or more coordinates begins with the same ones, and another interval holds the same points moved and stretched.',
 ['inputs'], 'all numbers of points and coordinates, all intervals',
 'No test uses the generator: its header did not compile.', ['il/random/sobol.h'], [('one stream of points, coordinates of a point side by side','sobol')], ['points, counted in cells'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
