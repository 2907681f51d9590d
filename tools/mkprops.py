#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": mech}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Parallel loops run every index exactly once and return after all are done",
  "A parallel loop over N tasks (class-style loop, lambda-style loop, with or without weights or a custom balancer, threaded, serial) calls the body exactly once for every index of the requested range and for no other index, whatever the number of threads. Every call gets a thread number below the number of threads the loop uses, two calls that overlap in time never get the same thread number, and the loop returns only after every body has finished, also when loops are run one after another with different sizes or inside each other. Built without threads, asking for more than one is refused.",
  ["schedules", "configurations", "inputs"],
  "all task counts, thread counts, weights, start offsets and interleavings of the worker threads",
  "The tests run two or three task/thread combinations and look only at the exit status; a lost, doubled or late task for some other combination, or one that needs a slow worker, is not seen.",
  ["src/PthreadsNg.h", "src/Parallelizer.h", "src/Parallelizer2.h", "src/Parallelizer2Pthread.h", "src/Parallelizer2Serial.h", "src/NoPthreadsNg.h", "src/InterNodeSerial.h"],
  "loopCreate/parallelFor start min(threads, tasks) pthreads, each walks the block the balancer gives it, and the creator joins them all")
p("C02", "Load balancers partition the tasks among the threads",
  "For every number of tasks and threads, a load balancer gives every task to exactly one thread, in the default balancer in consecutive blocks whose sizes differ from the ceiling only at the end, and an order number beyond a thread's share never names a valid task. The weight-based balancer assigns the tasks heaviest first, each to a thread that is least loaded at that moment, so no thread's load exceeds another's by more than the weight of one task.",
  ["inputs", "configurations"],
  "all task counts, thread counts and weight vectors (with ties and zeros)",
  "loadImbalance is run with one argument set and only its exit status is checked.",
  ["src/LoadBalancerDefault.h", "src/LoadBalancerWeights.h"],
  "blockSize(threadNum) and taskNumber(threadNum, p) of each balancer; greedy longest-processing-time assignment over sorted weights")
p("C03", "Threaded matrix multiply updates every element once and equals BLAS GEMM",
  "The threaded GEMM driver leaves in C exactly alpha*op(A)*op(B) + beta*C for every block size, thread count, transposition and leading dimension, so every element of C is updated exactly once, elements of the storage outside the m x n block are not touched, and A and B are unchanged.",
  ["inputs", "configurations", "schedules"],
  "all m, n, k, block sizes (0 included), thread counts, trans flags, leading dimensions and alpha, beta",
  "The tests use one block size, leading dimensions equal to the number of rows, and floating tolerances on sums.",
  ["src/GemmR.h", "src/Parallelizer2Pthread.h", "src/BLAS.h"],
  "C is tiled in nblocks_i x nblocks_j balanced tiles, one parallel task per tile, each a GEMM with offset pointers")
p("C04", "Concurrency settings, slot indices and disabled sections follow what was set",
  "The code-section settings in force are those last set, and loops built from them use exactly that many threads when there is work for each, with at least the stack size asked for, and each on a processor of its own, as long as there are any, if and only if that was asked for. Storage sized and indexed through the concurrency object is collision free for the threads in use (one slot and slot 0 when serial), and a section label is reported disabled exactly when it was disabled before.",
  ["histories", "configurations"],
  "all sequences of setting changes, loops and label operations",
  "No test reads the settings back or combines them.",
  ["src/Concurrency.h", "src/Concurrency.cpp", "src/CodeSectionParams.h", "src/LabelDisabled.h", "src/Parallelizer.h", "src/Parallelizer2.h", "src/PthreadsNg.h"],
  "static codeSectionParams/mode/storageSize/storageIndex and a list of disabled labels")
p("S01", "Sparse matrix operations agree with dense linear algebra",
  "After any sequence of constructions and operations on compressed-row sparse matrices (from dense, from triplets, row by row, sum, scaled sum, product, product with the conjugate transpose, conjugate transpose, scaling, lazy expressions, copies, swap), the matrix equals entry by entry the one exact dense linear algebra gives. Multiplying a vector adds exactly the matrix-vector product to the result, conversion to dense gives every entry, and the predicates (zero, diagonal, Hermitian, identity, antihermitian) and the square norm say what the dense matrix says.",
  ["histories", "inputs"],
  "all sequences of operations over rectangular and square matrices with empty rows and columns, repeated and cancelling entries, real and complex",
  "The tests run four fixed expressions and print results nobody compares; testCRSMatrix even aborts.",
  ["src/CrsMatrix.h", "src/Matrix.h"],
  "row pointer / column index / value arrays and the free functions multiply, operatorPlus, sum, transposeConjugate, crsMatrixToFullMatrix and the closure operators")
p("S02", "Sparse matrices stay structurally well formed and survive being stored",
  "After any sequence of operations a compressed-row matrix with rows has one row pointer per row plus one, starting at zero, non-decreasing and ending at the number of stored entries, with as many columns as values, every column index in range and no column stored twice in a row. Writing such a matrix to a text stream or to a file and reading it back gives the same matrix.",
  ["histories", "inputs"],
  "all sequences of operations and all matrices they reach, including 0 x 0, empty rows and trailing empty rows",
  "Nothing in the tests inspects the arrays, and no test stores and reloads a sparse matrix.",
  ["src/CrsMatrix.h", "src/Io/IoNgSerializer.h"],
  "rowptr_, colind_, values_, nrow_, ncol_; checkValidity; operator<< / operator>>; write/read")
p("S03", "Tensor products and block embeddings place every entry correctly",
  "The external (Kronecker) product of sparse matrices, in either order, with per-state fermionic signs and with a basis permutation, puts at each row and column exactly the product of the entries that the order, sign vector and permutation prescribe. Embedding a block at an offset into a larger matrix puts every entry of the block at its place and leaves everything else zero; a matrix that is not square is refused.",
  ["inputs"],
  "all pairs of sparse matrices (rectangular ones where allowed), orders, sign vectors, permutations and offsets",
  "No test calls these functions.",
  ["src/CrsMatrix.h"],
  "externalProduct overloads (row counting with permutation, sign vector), fromBlockToFull")
p("S04", "Sparse row and sparse vector accumulators sum duplicates and lose nothing",
  "Adding entries in any order to a sparse row and finalizing it appends each distinct column once, in increasing order, with the sum of the values added for it, and an accumulator reused after finalizing starts empty where it is meant to. A sparse vector built from adds, scalings and subtractions represents, after sorting, the vector dense arithmetic gives, and its inner product, chunk extraction and partition lookup agree with the dense vector.",
  ["histories", "inputs"],
  "all sequences of additions with repeated, cancelling and unordered indices, cache growth included",
  "These classes are compiled by no test.",
  ["src/SparseRow.h", "src/SparseRowCached.h", "src/SparseVector.h", "src/Sort.h"],
  "push of (index, value) pairs, sort with permutation, merge of equal neighbours")
p("D01", "Dense matrices and lazy vector expressions compute exact linear algebra",
  "Every dense matrix operation (products, sums, scalings, lazy expressions, transposes, outer products, products with the conjugate transpose, copies, swaps, resizes that keep data, row and column access) yields, entry by entry, what exact arithmetic gives, and changes no operand it should not change. Lazy vector expressions assigned or accumulated give the elementwise result, dot products and norms conjugate the documented side, and dot products of vectors of different sizes, a scaled += of different shapes, resizes that keep data but change a number of rows other than zero, too little data for a shape, and identity or Hermitian tests of matrices that are not square are rejected or answered with no.",
  ["histories", "inputs"],
  "all sequences of operations, shapes (1 x n, n x 1, empty) and integer-valued real or complex entries",
  "closuresTest covers one shape and few expressions; most members are never called.",
  ["src/Matrix.h", "src/Matrix.cpp", "src/Vector.h", "src/Complex.h"],
  "column-major storage, closure types ClosureOperator/Closure assigned with <=, BLAS-backed products")
p("D02", "Printing then reading vectors, matrices and stacks gives back the value",
  "A vector, dense matrix, pair list or stack written to a text stream and read back has the same shape and entries, several of them can be written one after another to the same stream and read back in order, and an empty one comes back empty.",
  ["inputs", "histories"],
  "all shapes and integer-valued entries, all sequences of writes to one stream",
  "No test reads back what it prints.",
  ["src/Matrix.h", "src/Vector.h", "src/Stack.h", "src/PsimagLite.cpp"],
  "operator<< and operator>> pairs, size first")
p("D03", "The BLAS interface performs the named operation in every number type and form",
  "Every routine of the BLAS interface (vector, matrix-vector, matrix-matrix, rank updates and triangular solves, on full, symmetric, Hermitian, triangular, banded and packed matrices, in real and complex, single and double precision) leaves in its output array the result its name and arguments prescribe, for every shape, side, triangle, transposition, step and leading dimension, reading only the part of a matrix it is told to use and writing nothing else.",
  ["inputs"],
  "all shapes, leading dimensions larger than the rows, steps of either sign, all flags and the four number types, with integer entries",
  "Tests reach a few of the hundred wrappers, through square products whose leading dimensions coincide.",
  ["src/BLAS.h"],
  "inline overloads forwarding to Fortran names by number type, arguments passed by address")
p("E01", "Sorting, permuting and enumerating produce exactly the prescribed sequences",
  "Sorting a vector returns it in non-decreasing order together with a permutation that maps every sorted position to where its element came from. Stepping a permutation object visits every distinct arrangement exactly once in increasing order and then reports the end, decomposing a sum lists every way exactly once in lexicographic order, packing and unpacking indices are inverse, bit counting counts, and integer division and logarithm round as documented.",
  ["inputs", "histories"],
  "all vectors with repetitions, all sums and parts, all index pairs, all words",
  "sumDecomposition runs one case for its exit status; the others are not compiled.",
  ["src/Sort.h", "src/Permutations.h", "src/SumDecomposition.h", "src/PackIndices.h", "src/BitManip.h"],
  "Sort::sort(x, iperm), Permutations::increase, SumDecomposition recursion, PackIndices::unpack/pack, BitManip::count")
p("I01", "The binary store behaves as a map from names to values over every history",
  "Whatever the sequence of opening (fresh, exclusive, read-write), writing, overwriting, grouping, closing and reopening, reading a name gives the value last successfully written under it, including after reopening the file. Writing without overwrite to a name that exists keeps the stored value, overwriting (for the types that can be overwritten) replaces the value of that name only and stores it where there was none, and opening exclusively an existing file or reading a missing name or file fails.",
  ["histories"],
  "all interleavings of open, write, overwrite, close, reopen and read over several names and types",
  "The tests write each name once and read it back in the same order.",
  ["src/Io/IoNg.h", "src/Io/IoNgSerializer.h"],
  "Out/In handles over one HDF5 file with everything under a root group; NO_OVERWRITE / ALLOW_OVERWRITE write modes")
p("I02", "Every storable type reads back from the binary store as it was written",
  "A value of any supported type (integers, reals, complex numbers, strings, booleans, pairs, vectors of those, vectors of vectors, vectors of pairs, dense matrices, stacks, enumerations) written and then read through the library equals the original, whatever its size and content, and reading real data into a complex destination gives the same numbers; the reverse is refused, as is reading whole numbers as real or complex ones or the reverse, and reading one number from a name that holds several. Lists of booleans keep their exact length and bits. What the format cannot hold (an empty string, an empty vector of numbers inside a vector) is never read back as something else: reading it fails.",
  ["inputs"],
  "all supported types, lengths (bit-packing boundaries included) and contents",
  "testIoNg writes a few constants; testIoNgBoolean checks one length.",
  ["src/Io/IoNgSerializer.h", "src/Io/TypeToH5.h", "src/Io/TypeToH5.cpp", "src/Io/IoNg.h"],
  "per-type write/read overloads of the serializer, bit packing of boolean vectors, companion complex-or-real tag")
p("I03", "A binary file not closed properly is recognised, a closed one is complete",
  "A file opened for reading after its writer was interrupted at any point before it first flushed or closed the file is refused, while a file whose writer closed it (explicitly or by destruction) opens and contains everything written. After a flush (or a reopening of a closed file) an interrupted writer loses nothing that was written by then and not overwritten since.",
  ["crash_points", "histories"],
  "all points between two operations at which the writing process can die, over all write histories",
  "No test kills a writer.",
  ["src/Io/IoNg.h"],
  "a marker stored when the file is opened for writing and replaced when it is closed or flushed, checked when a reader opens")
p("I04", "Labelled text files return the value, occurrence and vector that was asked for",
  "In a labelled text file the reader finds the value of a label at the requested occurrence (first, next, k-th or last) counting from its current position, and the vectors, matrices and pair lists stored under a label come back entry by entry. A label is found where a word begins with it. One that does not occur often enough is reported as an error, whether or not the caller asked for silence on the error stream, and rewinding starts the search again.",
  ["histories", "inputs"],
  "all files with repeated and nested-prefix labels, all sequences of reads, advances and rewinds",
  "The tests read each label of one file once.",
  ["src/Io/IoSimple.h"],
  "sequential search for label prefix with level counting, LAST_INSTANCE scan, reopen on rewind")
p("A01", "Input variables hold their last assignment and know whether they were used",
  "Processing an input program gives every declared name the value of its last assignment, and reading it returns that value. Assigning or reading an undeclared name, declaring a name twice, reading a name that was never given a value, or reading it as an incompatible type is an error, as is a program with any character but the printable ones of ASCII (without the backquote), blanks and ends of lines, and a name marked as must-be-used is listed as unused exactly until it is first read.",
  ["programs", "histories"],
  "all programs of declarations, assignments and comments, in any order and layout, followed by any sequence of reads",
  "The tests parse two sample programs and check one number.",
  ["src/Ainur/AinurState.h", "src/Ainur/AinurSpirit.cpp", "src/Ainur/AinurSpirit.h", "src/Ainur/AinurSpirit1.cpp", "src/Ainur/AinurLexical.h", "src/Ainur/Ainur.h"],
  "statement recognition, parallel arrays of keys, types, values and use counts")
p("A02", "Input values convert to numbers, vectors and matrices exactly",
  "The text of a value converts to the number, complex number, string, vector or matrix it denotes, element by element and independent of white space and line breaks. The ellipsis forms fill or extend a vector as documented, and ragged matrices, wrong brackets or text of the wrong kind are rejected instead of being read as something else. Text left over behind a complete matrix only draws a warning.",
  ["inputs"],
  "all value texts built from the value grammar, with white space and line breaks anywhere they are allowed, and corruptions of them",
  "Two sample files are parsed; their values are mostly not compared.",
  ["src/Ainur/AinurConvert.cpp", "src/Ainur/AinurConvert1.cpp", "src/Ainur/AinurConvert.hh", "src/Ainur/AinurComplex.hh", "src/Ainur/AinurState.h", "src/Ainur/AinurDoubleOrFloat.h"],
  "value conversion grammar with element actions and ellipsis rules")
p("A03", "Macros in input programs expand to their definition everywhere or fail",
  "Every reference to a defined macro in a value is replaced by the macro's text, also when macros refer to macros and wherever in the value the reference stands, and text without references is unchanged. A macro that refers to itself, directly or through others, is reported as an error rather than looping or yielding a partial expansion. A call of a native function read from a table gives the table's value for its argument, and an argument the table lacks is an error.",
  ["programs"],
  "all systems of macro definitions (chains, shared prefixes, cycles) and positions of references",
  "No test defines a macro.",
  ["src/Ainur/AinurMacros.hh", "src/Ainur/AinurSpirit.cpp", "src/Ainur/AinurState.h"],
  "iterated replacement of backslash names with a bound on the number of rounds")
p("A04", "Input files that hold a program read as the program's values",
  "An input whose text starts with ## is run as an input program, after the declarations that the application imports, with every list line (!A$iB v0 v1 ...) written out as one assignment per value, and is refused when the program or a list line is malformed. Reading a label, with or without equal sign, from a file or from a given text, gives the value the program gives that name, and an exception for names without value.",
  ["inputs", "histories"],
  "all texts in the bounds of the model and random programs with list lines, imports and layouts; all kinds of values",
  "The tests read a few fixed inputs in the label format; none reads a program through InputNg.",
  ["src/InputNg.h", "src/Ainur/AinurState.h", "src/Ainur/AinurSpirit.h"],
  "replaceLine and the ainurMode branches of InputNg::Readable")

p("N01", "Label=value input text parses to exactly the labels and values it contains",
  "Parsing an input text in the label=value format stores every label with its scalar, string or counted list of values, independent of white space, blank lines and comments, and nothing else. A counted list whose length differs from its declared count (unless the application's checker takes care of it), a count followed by no value, a label with nothing after it and a label the checker does not know are refused, and replacement lines stand for one label=value line for each of their values.",
  ["inputs", "programs"],
  "all texts over the input grammar: labels, numbers, lists, strings, comments, blank lines, any spacing, with or without a final newline",
  "The header is compiled by no passing test.",
  ["src/InputNg.h", "src/InputCheckBase.h"],
  "character-level state machine over white space, end of line, equal sign, alphabetic, numeric and comment characters")
p("N02", "Repeated input labels are handed out once each, in order, with the right type",
  "Reading a label that was given several times returns its values in the order of the text, one per read, and then keeps returning the last one (or fails, if the caller had it removed) rather than starting over. Reads of one label never affect another label, single values and lists of the same label do not affect each other, and values convert to the requested type exactly or the read fails.",
  ["histories"],
  "all texts with repeated labels and all interleavings of reads of different labels and types",
  "No passing test compiles the reader.",
  ["src/InputNg.h"],
  "label@k storage of duplicates and removal of the consumed entry on each read")
p("X01", "Predicates evaluate to the logical value of their text",
  "A predicate text made of comparisons between expressions, conjunctions and alternatives evaluates, for all values of its variables, to the logical value of that formula with the documented precedence, for each of the operators equal, not equal, less, greater, less-or-equal, greater-or-equal and divisible. Variables stand as whole words, sides may be prefix expressions, and arithmetic is that of the variables' number type. An empty predicate is false; text that is no predicate, or division by zero in the divisible test, is an error.",
  ["inputs"],
  "all predicate texts over the grammar and all values of the variables",
  "One predicate is evaluated at one value in the tests.",
  ["src/PredicateAwesome.h", "src/PredicateAnd.h", "src/PredicateSimple.h", "src/PredicateSimple.cpp", "src/PredicateDefaultSpec.h"],
  "split on alternatives, then conjunctions, then the comparison operator; sides evaluated as prefix expressions")
p("X02", "Prefix expressions evaluate as the arithmetic they denote",
  "An expression in prefix notation, written level by level (the arguments of the operators of one level follow, in order, in the next), evaluates to the number that ordinary arithmetic gives for its tree, for sums, differences, products, quotients, remainders of the magnitudes, the conditional and the functions, for any nesting and every supported number type. Dividing by a number below a thousandth in magnitude leaves the dividend and a remainder by zero the number. Missing operands, unknown operators and malformed numbers are rejected.",
  ["inputs"],
  "all expression trees up to a bound over small numbers, real and complex",
  "calculator adds 1 and 2 for its exit status.",
  ["src/AST/ExpressionForAST.h", "src/AST/PlusMinusMultiplyDivide.h", "src/AST/Node.h", "src/AST/Tree.h"],
  "tree built from the token list level by level, evaluated recursively by node primitives")
p("X03", "Sums of products of named items evaluate term by term",
  "A canonical expression (terms joined by plus, factors by star, numeric or parenthesised scalar factors anywhere) evaluates to the sum over terms of the product of its items times its scalars, in the order written, for every assignment of items to matrices or numbers; terms without items do not count. Unbalanced or nested parentheses, minus signs behind anything but nothing, a plus or an opening parenthesis, malformed numbers and items of different kinds are errors.",
  ["inputs"],
  "all expressions over the grammar and all item values",
  "The classes are compiled by no test.",
  ["src/CanonicalExpression.h", "src/QuasiCanonical.h", "src/CmplxOrReal.h"],
  "parenthesised scalars evaluated first, then split on plus and star, with running factor and product")
p("X04", "Operator labels and state specifications parse to the parts they spell",
  "An operator label splits into name, degree of freedom and transposition exactly as written, and a site in brackets is separated from the label around it. A bra or ket specification yields its side, kind and indices, and malformed labels (nothing or no number after the mark, unmatched brackets, unknown letters, missing numbers) are rejected.",
  ["inputs"],
  "all strings over the label alphabets up to a bound",
  "The classes are compiled by no test.",
  ["src/OneOperatorSpec.h", "src/GetBraOrKet.h"],
  "single pass string scanners")
p("X05", "Option lists and string helpers do exactly what their names say",
  "An option is set exactly when it stands in the comma separated list (never in disabled mode), and in strict mode an unregistered option is refused. Splitting a string yields its maximal delimiter-free pieces in order, replacing all replaces every non-overlapping occurrence from the left, number recognition and conversion accept exactly the texts that are numbers and give their value, file names and stems stand behind the last slash and before the last dot, and an integer quotient that is not whole is refused; a label is substituted, leftmost first, until it is gone.",
  ["inputs"],
  "all strings over small alphabets up to a bound, all delimiter sets",
  "options is run once for its exit status.",
  ["src/Options.h", "src/PsimagLite.cpp", "src/PsimagLite.h"],
  "find over a token vector; find_first_of scans; find/replace loop")
p("B01", "Base64 encoding is standard and decoding inverts it",
  "Encoding any byte string, zero bytes included, gives its standard base64 text with padding, and decoding that text gives the bytes back. Decoding stops at the first character that is not part of base64 text.",
  ["inputs"],
  "all byte strings",
  "base64test round-trips one text.",
  ["src/PsiBase64.h", "src/PsiBase64.cpp"],
  "three-byte groups to four six-bit symbols and back")
p("G01", "Lattice geometries describe one consistent undirected graph",
  "For every supported lattice, size and boundary condition, two sites are connected exactly when the lattice definition makes them neighbours, symmetrically, never a site with itself. Every connected pair has one direction below the number of directions; where couplings may vary from bond to bond (chains, ladders, two-leg ladders with diagonals, ladders with bath, stars), its bond number lies below the number of couplings of that direction and distinct bonds of a direction get distinct numbers. Translations and reflections map sites one to one and preserve neighbours on periodic or symmetric lattices, and sizes that do not fit the lattice are refused.",
  ["inputs", "configurations"],
  "all geometries, sizes, leg counts, distances and periodicities",
  "No test compiles the geometry code.",
  ["src/Geometry/Ladder.h", "src/Geometry/LadderX.h", "src/Geometry/LadderBath.h", "src/Geometry/LongChain.h", "src/Geometry/Star.h", "src/Geometry/Honeycomb.h", "src/Geometry/KTwoNiFFour.h", "src/Geometry/LongRange.h", "src/Geometry/GeometryBase.h"],
  "index arithmetic in connected, calcDir, handle, getVectorSize, translate, findReflection")
p("G02", "Couplings and site splits follow the input for every pair of sites",
  "The coupling between two sites and orbitals is the one the input gives for their bond in the right term and direction (the single value with constant values, the table's entry for general connectors), conjugate transposed when the sites of a matrix coupling are swapped, and zero where there is no bond, for every geometry and number of orbitals (ladders with diagonals: two legs). While an open chain or two-leg ladder grows, the environment is coupled as if it stood next to the system. Splitting the lattice lists every site exactly once, in the order and block size required; tables of the wrong size are refused.",
  ["inputs", "configurations"],
  "all geometries, coupling tables, orbitals, terms and block sizes",
  "No test compiles the geometry code.",
  ["src/Geometry/Geometry.h", "src/Geometry/GeometryTerm.h", "src/Geometry/GeometryDirection.h", "src/Geometry/LongRange.h"],
  "cached coupling matrix built from per-direction tables; split() into system, steps and environment")
p("L01", "The Lanczos solver returns true eigenpairs of the matrix it was given",
  "For a Hermitian matrix whose spectrum is known exactly, the Lanczos solver returns the requested lowest or excited eigenvalue among those the start vector has a part in, and as vector that part, of unit length, whatever was in the vector before, for every size including one, with and without reorthogonalisation, and however often the solver was used before. Its decomposition consists of orthonormal vectors, the first along the start vector, between which the matrix is the tridiagonal one, no more of them than levels, and with too few steps it gives a state of the energy it claims, between the extremes. A start vector of the wrong size, more states than the start vector reaches, and a solver without stored vectors are refused.",
  ["inputs", "configurations", "histories"],
  "all Hermitian matrices with integer spectrum up to a bound, sizes from one, real and complex",
  "The tests print energies of random matrices that nobody compares.",
  ["src/LanczosSolver.h", "src/LanczosCore.h", "src/LanczosVectors.h", "src/TridiagonalMatrix.h", "src/TridiagonalMatrix.cpp"],
  "three-term recurrence, diagonalisation of the tridiagonal matrix, back transformation of the Ritz vector")
p("L03", "Spectral functions are the resolvent of the matrix",
  "The continued fraction made of a Lanczos decomposition, evaluated at any complex frequency, along a line of real frequencies or at Matsubara frequencies, is weight times the diagonal element of the resolvent of the matrix in the normalised start vector, at the energy offset and sign asked for; a plot has one point for every step that fits in its interval. A collection is the sum of its members, and written to a file and read back it gives the same function. The dense form and the eigenvalues of a tridiagonal matrix are those of its two diagonals.",
  ["inputs", "configurations"],
  "all Hermitian matrices with integer spectrum up to a bound, start vectors, offsets, signs, frequencies",
  "continuedFraction.cpp and its kin print numbers nobody compares; nothing writes and reads one back.",
  ["src/ContinuedFraction.h", "src/ContinuedFractionCollection.h", "src/TridiagonalMatrix.h", "src/TridiagonalMatrix.cpp", "src/PlotParams.h", "src/FreqEnum.h", "src/ParametersForSolver.h"],
  "poles and intensities from the tridiagonal matrix, write and read")
p("L04", "A solver's parameters are those of the nearest solver numbered at most as high",
  "Reading a solver's parameters from an input gives, for each parameter on its own, what the input sets for that solver's number, else what it sets for the next lower number that has it, else what it sets without a number, else the documented default; a solver without a number sees only what is set without one. What other prefixes or higher numbers set does not matter, nor the order or the format of the input, and a name that is declared without a value is not set.",
  ["inputs", "configurations"],
  "all inputs that set any of the parameters for any numbers, in both input formats, and all solvers",
  "No test reads solver parameters from an input.",
  ["src/ParametersForSolver.h", "src/InputNg.h"],
  "a search over labels from the solver's own number down, driven by exceptions")
p("L02", "Dense diagonalisation, SVD and inverse satisfy their defining equations",
  "Diagonalising a Hermitian matrix of known spectrum gives its eigenvalues in increasing order and orthonormal eigenvectors, the spectrum of any matrix comes with left and right eigenvectors, the singular value decomposition, full or thin, reproduces the matrix with orthonormal factors and non-negative non-increasing values, and the inverse and the exponential (of the matrix if it is real, of i times it if complex) are the exact ones. A tridiagonal matrix gives its dense form, of its leading part too, and the eigenvalues of that part. Matrices that are not square where they must be, empty or singular ones and unknown methods are refused.",
  ["inputs", "configurations"],
  "all integer matrices of known spectrum or inverse up to a bound, real and complex, in single and double precision",
  "testLapack checks one matrix; svd prints.",
  ["src/Matrix.h", "src/Matrix.cpp", "src/Svd.h", "src/LAPACK.h"],
  "wrappers around LAPACK with workspace queries")
p("R01", "Random sequences depend only on the seed; run ids carry their checksum",
  "Two Mersenne twister generators given the same seed produce the same sequence, the one that seed stands for, whatever else was drawn before or in between, numbers stay in their range, reseeding restarts the sequence and every rank has a sequence of its own. Generators that share the state of the C library follow it, and the one for tests follows its recurrence. Every run identifier ends in the two-digit count of one bits of the number before it.",
  ["histories", "inputs"],
  "all seeds and all interleavings of draws from several generators",
  "checkRunId checks twenty identifiers; randomTest is run for its exit status.",
  ["src/MersenneTwister.cpp", "src/MersenneTwister.h", "src/Random48.h", "src/RandomForTests.h", "src/ApplicationInfo.h", "src/BitManip.h"],
  "Mersenne twister state array with regeneration every 624 draws; popcount suffix")
p("R02", "Progress and redirected output reach their place, complete and in order",
  "Progress lines, messages and timed sections of the master appear once, complete and in order on the given stream, those of other threads not at all, and while the signal-toggled buffer is active every line is also in the buffer file written at the next toggle. Standard output redirected to a file ends up entirely in that file and nowhere else, appended or truncated as asked, and at once if unbuffered; a redirection that is not possible, and a second one, are refused and change nothing. Figures of the process are what its status said at the last update, up to the end of their line; a run records its name, identifier, start and, once over, its end; environment variables are what they were last set to, and the precision of a stream is left as it was.",
  ["histories"],
  "all sequences of lines, messages, toggles, threads, timed sections and redirections",
  "The redirect test looks at the exit status.",
  ["src/ProgressIndicator.h", "src/ProgressIndicator.cpp", "src/RedirectOutput.hh", "src/Profiling.h", "src/MemoryUsage.h", "src/ApplicationInfo.h"],
  "prefixing of lines, static buffer and active flag; replacement of the stream buffer of standard output")
p("K01", "Bracketing root search returns a point where the function is within tolerance",
  "Given a continuous function with opposite signs at the ends of an interval, bisection returns a point inside it where the function is within the tolerance or reports that the iterations ran out, and it refuses an interval without sign change. Interpolation through given points returns the given values at those points and refuses arguments outside the interval.",
  ["inputs"],
  "all piecewise linear functions, intervals and tolerances in the bounds; all increasing point sets of five or more points",
  "Neither class is compiled by a test.",
  ["src/RootFindingBisection.h", "src/AkimaSpline.h"],
  "halving loop with sign comparison; piecewise cubic coefficients")

p("K02", "Chebyshev moments and kernel sums give the spectral density of the matrix",
  "For every Hermitian matrix and start vector, the moments the solver returns are the expectation values of the Chebyshev polynomials of the matrix shifted and scaled to an interval that holds all its levels, in order and for all steps. The density plotted from given moments is, at every point of the grid, the sum of the moments times the chosen kernel and the polynomials, also after the moments were written and read back.",
  ["inputs", "histories"],
  "all integer Hermitian matrices with up to three rows of the bounded model and random ones up to six, 800 moments; all kernels, cutoffs and grids of rational points",
  "No test compiles the Chebyshev solver or its sums.",
  ["src/ChebyshevSolver.h", "src/ChebyshevSerializer.h", "src/ChebyshevFunction.h", "src/ChebyshevFunctionExplicit.h"],
  "moments of even and odd steps from neighbouring vectors; kernel-damped sums")

p("K03", "Time stepping, linear prediction and thermal factors give the exact values",
  "For every linear system, with or without a driving term, the time stepper returns the requested number of values starting at the initial one, each that of a method of fourth order: exact where the solution is a polynomial of degree four or less. Linear prediction continues a sequence with the combination of its last values that fits its second half best, so that sequences with a recurrence are continued exactly, and refuses what it cannot fit; thermal factors, their derivative and logarithm have the right value over the whole range, with no overflow.",
  ["inputs"],
  "all integer systems of up to four equations with polynomial solutions, steps 1, 1/2 and 1/4; sequences of up to ten points and orders up to three; factors at all multiples of log 2 up to 120",
  "No test compiles these classes.",
  ["src/RungeKutta.h", "src/LinearPrediction.h", "src/Fermi.h"],
  "tableau of solve; normal equations computeA, computeB, computeD; fermi, fermiPrime, logfermi")

p("K04", "Integrals, minima and the gamma function obey their laws, call after call",
  "An integrator returns the integral of its function between two points, through any break points, to infinity and over the whole line, exact for polynomials, in any order of calls on one object. A minimizer finds the minimum of every positive quadratic function from every start (unless the simplex method of the GSL itself goes round in circles there), never answers with a point above the start, reports why it stopped, and carries nothing from one search to the next; the gamma and cosine integral functions obey their recurrences, and linear prediction without growing parts keeps exactly the roots within the unit circle. In a build without the GSL every one of these is refused with an error.",
  ["inputs", "histories"],
  "all polynomials of degree up to five at integer points in five settings; positive definite integer forms in up to four variables, all starts, round limits from 0; gamma at half-integer complex points; recurrences with up to two distinct roots at halves",
  "No test is built with the GSL.",
  ["src/Integrator.h", "src/Minimizer.h", "src/SpecialFunctions.cpp", "src/GslWrapper.h", "src/LinearPrediction.h"],
  "Integrator::operator(), toInfinity; Minimizer::simplex, conjugateGradient; LnGammaFunction, Ci; predict2")

p("M01", "Processes that pass messages all end up with exactly the data they should",
  "With any number of processes, in the whole group or any part or order of it, a broadcast leaves every process with the root's value, whatever it held before; a reduction gives the sum, product, least or greatest of all values, at the root or everywhere; gathering element by element gives the root every element from the process it belongs to; and values sent are received unchanged in any order of their tags, with nothing left over and no process waiting for ever. Files and progress lines that all processes write are written by the first one only, and in a build without MPI everything behaves as with one process.",
  ["inputs", "schedules", "histories"],
  "1 to 4 processes, three groupings, every root; numbers, vectors, vectors of vectors, pairs, dense and sparse matrices, real and complex, of different sizes at each process",
  "No test runs with more than one process.",
  ["src/MpiYes.h", "src/MpiYes.cpp", "src/MpiNo.h", "src/Matrix.h", "src/CrsMatrix.h", "src/Io/IoSimple.h", "src/ProgressIndicator.h"],
  "MPI::bcast, reduce, allReduce, pointByPointGather, send, recv; Matrix and CrsMatrix send, recv, bcast; IoSimple::Out")

p("M02", "A loop shared among processes runs every step once, and none leaves early",
  "When processes of a group run a loop together, every order number of its range is run exactly once, by one process, in consecutive blocks or as the given balancer says, with the process's rank in the group; no process returns before every order number has been run by all of them. Without MPI the one process runs all of them in order.",
  ["inputs", "schedules"],
  "1 to 4 processes, three groupings, ranges from empty to 90 steps with any start, plain and weighted balancers, one process slower than the others",
  "No test runs with more than one process.",
  ["src/InterNodeMpi.h", "src/InterNodeSerial.h", "src/LoadBalancerMpi.h"],
  "InterNode::parallelFor")

p("T01", "Build configuration tags hold exactly what the tag files say, or are refused",
  "After reading any sequence of tag files, every tag holds exactly the text that the set, append, optional, strict, delete and remove lines gave it in that order, whatever the layout (one line, parentheses, blocks, comments), and malformed lines, unclosed blocks and violated strict modes are refused. The files read are the base one and, after it, the one given or else the one that the user's environment names. Putting a text or a flavor together replaces every reference by the whole text of its tag at any depth, keeps escaped characters as they are, and refuses missing tags and tags that refer to themselves.",
  ["inputs", "histories"],
  "all sequences of tag files with names of words, all modes, layouts, nested references and flavors (default and given)",
  "No test reads a tag file.",
  ["scripts/PsiTag.pm", "scripts/NewMake.pm"],
  "readTags, addTag, unWrap, canonicalTagName; getConfigContent, configFilesList")
p("T02", "Written build files build every program from its sources, and nothing needless",
  "For any list of programs (auxiliary objects, shared objects, own and package libraries, extra prerequisites, flags), a build with the written build file compiles every needed object once from its source with the flags asked for, links every program once from exactly its objects, after them, with its libraries, and strips it. Whatever files are changed or removed between builds, exactly what comes from them is made again, and cleaning removes what was made and nothing else.",
  ["inputs", "histories"],
  "the three writers of build files in scripts, run by make with one and several jobs",
  "The tests use one build file, once.",
  ["scripts/NewMake.pm", "scripts/Make.pm"],
  "NewMake::main; Make::newMake, make, combineAllDrivers")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
