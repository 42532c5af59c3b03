TECH = 'TLA+ spec explored by TLC; behaviours replayed into the code; recorded traces decided by TLC'
A = 'Exhaustive over the small abstract machine (all transitions replayed up to the stated budget), sampled at larger sizes; trusts TLC, the harness observations and AddressSanitizer. '
CHECKS = {
 'C01': ('c01.py', TECH, A + 'Element types int, double, short and a tracked class type, checked and release builds.'),
 'C03': ('c03.py', TECH, A + 'Addresses are read from the real objects; int/double/short elements.'),
 'C04': ('c04.py C04', TECH, A + 'Ranks 2; int, double and tracked class elements, both builds.'),
 'C05': ('c04.py C05', TECH, A + 'Ranks 3 and 4; int, double and tracked class elements, both builds.'),
}
NOT = {}
CHECKS.update({
 'C07': ('c07.py C07', TECH, A + 'SmallArray with 1, 2 and 3 inline elements; static arrays of fixed shapes up to rank 4; int, double and tracked class elements, both builds.'),
 'C08': ('c07.py C08', TECH, A + 'LowerArray2D, UpperArray2D, TriDiagonal (int, double, tracked) and BandArray2C (int, double), both builds.'),
})
CHECKS.update({
 'C09': ('c09.py C09', TECH, A + 'MapTable.tla proves the open-addressing table (up to 32 buckets) refines the abstract map; int, colliding, tracked class and String keys; int and tracked class values; both builds.'),
 'C10': ('c09.py C10', TECH, A + 'int, colliding, tracked class and String elements; both builds.'),
 'C11': ('c09.py C11', TECH, A + 'int, colliding, tracked class and String keys; int and tracked class values; both builds.'),
})
CHECKS.update({
 'C12': ('c12.py C12', TECH, A + 'int, double and tracked class elements; both builds.'),
 'C13': ('c12.py C13', TECH, A + 'Trees with 2, 3, 4, 7 and 9 children per node; int, double and tracked class values; both builds.'),
})
CHECKS.update({
 'C14': ('c14.py C14', TECH, A + 'Lengths around the 22/23 frontier exhaustively, up to 200 characters sampled; every kind of string; both builds.'),
 'C15': ('c14.py C15', TECH, A + 'Quick: frontiers and a sample of the scalar values; thorough: all of them. Conversions are checked on well-formed input only.'),
})
CHECKS.update({
 'C16': ('c16.py', TECH, A + 'Trees of values up to 40 nodes over every alternative; both builds.'),
 'C17': ('c17.py', TECH, A + 'Info with up to 15 records, nine keys; Status in checked builds over every transition, in release builds on histories that respect the contract.'),
})
CALLS = 'TLA+ definitions checked by TLC; recorded calls of the real functions decided by TLC against them'
CHECKS.update({
 'C18': ('c18.py', CALLS, 'Range tests exact at widths 2-6 in the model; the real ones at every boundary of 32 and 64 bits and on random operands, portable and builtin variants. Trusts TLC and the harness.'),
 'C19': ('c19.py', CALLS, 'Bisection and quicksort as state machines over every array up to the model bound; real arrays of double, float, int and int_t, every small one and random ones up to 200 elements. NaN is out of scope.'),
})
CHECKS.update({
 'C06': ('c06.py', TECH, A + 'Views identified by the addresses they select; nested views, spare capacity, raw strided memory (ranks 1-3); int, double and tracked class elements; both builds. Empty ranges at the very end are not specified.'),
})
CHECKS.update({
 'C20': ('c20.py', TECH, A + 'One object at a time: every element, end, row, column, range, block, slot and resize argument around and far outside the bounds (extreme index values too), on every container and view; int and double; checked build with AddressSanitizer.'),
})
CHECKS.update({
 'C02': ('c02.py', TECH, 'LifetimeModel.tla: the container protocol unfolded into single events never breaks Lifetime.tla; then a sample of the histories of fourteen other checks, with every allocation, release, construction, use and destruction recorded and decided by TLC. A tracked class type and plain types; both builds. Accesses outside live blocks are seen by AddressSanitizer.'),
})
CHECKS.update({
 'C21': ('c21.py', TECH, 'ValueStore.tla: 60 types (arrays of every rank and order, small, static, packed, banded, sparse, associative, deque, tree, strings, Dynamic, Info; elements int, double, tracked class, String, nested) driven through every transition of the value-type machine and random histories; both builds. Contents are compared as shown by the public accessors. The state after a move is specified except for static arrays of fixed size.'),
})
CHECKS.update({
 'C22': ('c22.py', TECH, 'Numpy.tla gives every byte sequence its meaning; NumpyModel.cfg checks round trip, every truncation and every single damaged byte of small files. The real save and load: every small shape with and without spare capacity, histories of save, damage and load, crafted headers with one or several deviations, missing places, directories, failing devices; bytes of the file, reply, data and open handles compared. int and double; both builds. Little endian hosts only.'),
})
CHECKS.update({
 'C23': ('c23.py', CALLS, 'Toml.tla: grammar and meaning of the supported subset, including table definition rules and exact decimal to double rounding. TLC enumerates the viable prefixes over three vocabularies (lines, headers, values) and checks layout independence and soundness; every enumerated document, a catalogue, random documents in many layouts and damaged ones are loaded by the real parser; status, whole value and open handles compared. Dates, multi-line strings, dotted keys in pairs and other bases must be errors. Both builds.'),
 'C24': ('c24.py', CALLS, 'TomlSave.tla: what a saved tree must come back as; TLC checks that a way of writing exists that returns every enumerated small tree. The real save and load on every enumerated tree, every special key, string, integer and double at several positions, random trees, trees with unsupported values (must be reported), places that cannot be written; the file itself must be a document that Toml.tla gives the same meaning. Both builds.'),
})
CHECKS.update({
 'C28': ('c28.py', CALLS, 'Filepack.tla: what a saved tree must come back as, what is not supported, the record format of booleans, strings and tables (TLC: every enumerated tree decodes to itself and no prefix of its records is complete). The real save and load of every enumerated tree, every special key, string, integer and double, random trees with matrices and spare capacity, arrays of structures reached through paths of options, unsupported values, places that cannot be written, every truncation. Both builds. Arbitrarily damaged files are not specified.'),
})
CHECKS.update({
 'C25': ('c25.py', CALLS, 'Dense.tla: products of complex integer matrices held in windows of buffers; TLC checks the laws of the definition (transposition, adjoint, order of storage, empty products) on every small product. The real functions on these, on random shapes up to 7 (some up to 28), strides, offsets, scalars, NaN in results that must not be read, incompatible sizes (checked build), and on static arrays of eight families of sizes; whole buffers compared. float, double, complex of both, int for static arrays; both builds. Integer values only (exact in floating point).'),
})

CHECKS.update({
 'C26': ('c26.py', CALLS, 'Factor.tla: determinants, permutations, triangles, characteristic coefficients and norms over complex integers, and the defining equations (P L U = A, A X = D B, Q R = A with R*R = A*A, symmetric functions of eigenvalues and squared singular values); TLC checks the laws of these definitions (adjugate, uniqueness, kernels, definiteness) on every enumerated small matrix. The real functions on these and on random matrices up to 5x5 (6 rows), built so that elimination is exact where factors and singularity are compared, with padding, permutations, several right-hand sides, bad sizes; LU (dynamic, static, views), Cholesky (full, packed), QR, band, tridiagonal, triangular solves, condition estimates, eigenvalues, singular values, norms; double and complex; both builds. Results are observed multiplied by the determinant and rounded (1e-7).'),
})

CHECKS.update({
 'C27': ('c27.py', TECH, 'Sparse.tla: compressed rows, what they mean as a dense matrix, the matrix of a list of positions, products, norms, solutions; TLC checks on every list of up to 3 (thorough 4) positions in matrices up to 3x3 that the constructions are sorted, sum repeated positions, transpose, and that products by rows are dense products. Histories over three matrices (every constructor, element writes, copies, moves, products with vectors directly and through handles, products of matrices, norms, loading from three NumPy files, analysis / factorisation / solution with Pardiso, GmresIlu0), decided by TLC event by event. int and il::int_t indices, double and float; both builds. Integer values; products by MKL need sorted rows.'),
})

CHECKS.update({
 'C29': ('c29.py', TECH, 'Iter.tla: Krylov spaces of an operator with or without a diagonal preconditioner, their degree, the first step as a fraction, exact solutions, and which first steps meet a tolerance; TLC checks on every enumerated small system that the solution lies in the space of the degree and in none before, and that the first step is optimal (residual for GMRES, energy for conjugate gradient). Histories over two solvers (constructed, reused, reconfigured, whole solves with tolerances and limits from loose to 1e-9, step by step), decided by TLC event by event: report against the residual computed apart, iteration counts, exact first steps and solutions, orthogonality of the residuals between, restarts, zero right-hand sides, x and y given, bad sizes. Up to 6 unknowns; both builds. Steps of GMRES after the residual has vanished are not specified.'),
})

CHECKS.update({
 'C30': ('c30.py', TECH, 'File.tla: two file objects over two files, a missing directory and a full device; FileModel.cfg shows that a reader with a buffer of any size gives the same bytes as one without. Every transition of the small machine and random histories (buffers from none to longer than the file, fixed and variable reads, skips over the buffer, reads to the end and beyond, writes, errors on opening, writing and closing) replayed on the real class; bytes read, replies, files and open handles compared. Both builds. After a failed read the position is not specified; seekable files only; ReadWrite mode is not supported by the code.'),
})

CHECKS.update({
 'C31': ('c31.py', TECH, 'Formats.tla: the format of a name, what each type can be saved as and loaded from, and what is on the disk; TLC checks that errors and loads leave the disk alone and that what is saved comes back. Every type under every small name (each ending, endings after endings, near misses, upper case, no ending), copies to other names, damaged files, random histories with long and non-ASCII names, both kinds of name (il::String, std::string), options; status, value, directory and handles compared. Both builds. PNG needs a library that is not here: only its absence as a format of the other types is decided.'),
})

CHECKS.update({
 'C32': ('c32.py', TECH, 'Ppm.tla: what any sequence of bytes means as a binary PPM image (the image, an error, or, where readers differ, either); TLC checks for every layout of the header that the image is the one written, that no beginning of the file is an image and that what follows it does not matter. Every document of the model, sampled (thorough: all) truncations of them, larger random images with comments, any white space and leading zeros, damaged headers, trailing bytes, missing files; each pixel, the status, the file and the open handles compared. Both builds.'),
})

CHECKS.update({
 'C33': ('c33.py', TECH, 'Timer.tla: two timers over a clock, sleeping, what a benchmark may run and must tell, durations as text; TLC checks that a timer tells the nanoseconds that went by while it was on, counted one by one, and that other operations leave it alone. The harness replaces the clock and the sleep calls of the C library, so that time moves only when the script says so and every interval is exact. The behaviours of the model stretched to lengths from nanoseconds to a quarter of a second, random histories, benchmarks of programs with fixed, uneven and paused costs, durations at and between the bounds of the units. Both builds; calls out of contract in the checked one. TimerCycles (a processor register) is not decided.'),
})

CHECKS.update({
 'C34': ('c34.py', TECH, 'Sobol.tla: the cells and boxes that a net of points fills, and the sequence of Sobol in two coordinates; TLC checks that this sequence has the laws for every length up to 40 and three finenesses. Points of 1 to 255 (thorough: 1023) in 1 to 40 dimensions and several intervals, counted in cells, every full block of every size looked at; arrays of one trace must begin alike. Both builds.'),
})
