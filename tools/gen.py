#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "dune/istl/"
# id: (title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)])
P = [
("C01","Sparse matrix pattern is exactly what was declared",
 "After any complete construction of a sparse block matrix (row sizes plus indices, row-wise creation, implicit creation, or re-sizing and building again) its pattern is exactly the set of declared positions: existence queries, row sizes, iteration in both directions, lookup, row and entry counts all agree with it, columns come out strictly increasing and every entry has storage of its own. Declaring a position twice changes nothing and the order of declaration does not matter.",
 ["inputs","histories"],"all patterns, declaration orders, duplicate declarations and over-estimated sizes of small matrices",
 "tests build a handful of regular patterns; the invariant must hold for every pattern and declaration order",
 ["bcrsmatrix.hh"],[("sorted insertion into reserved rows","bcrsmatrix.hh addindex/endindices"),("row-wise creation","bcrsmatrix.hh CreateIterator"),("compression of implicit rows","bcrsmatrix.hh compress")]),
("C02","Misuse of the matrix construction protocol is refused",
 "A call to a construction step of a sparse matrix that is out of protocol (wrong build mode, wrong stage, a size that was never set, a column outside of the matrix, more indices than reserved, negative buffer sizes, copying a half built matrix) raises the documented exception instead of being accepted. A refused call leaves no memory error behind: the object can still be destroyed or sized again and then be built.",
 ["histories","inputs"],"all sequences of construction calls up to a small length, in every build mode",
 "tests check single wrong calls; the guarantee is about every call sequence",
 ["bcrsmatrix.hh"],[("stage checks","bcrsmatrix.hh ready/build_mode tests in every construction method")]),
("C03","Copies of a sparse matrix are equal and independent",
 "Copy construction and assignment of a sparse matrix yield a matrix with the pattern and the values of the source, leave pattern and values of the source untouched, and from then on changes to one of the two (values, scaling, resizing, destruction, rebuild) are never visible in the other. This holds for every way the source was built and every previous content of the target.",
 ["inputs","histories"],"all small patterns, all construction modes of source and target, all symbolic values",
 "copies share the column indices; tests only copy matrices without unused reserved space",
 ["bcrsmatrix.hh"],[("index sharing and window reconstruction","bcrsmatrix.hh copyWindowStructure/deallocate")]),
("C04","Implicit construction keeps every value and reports exhaustion",
 "In implicit construction every accessed position can be written, read back and accumulated to at any time before compression, and after compression the matrix holds exactly the accessed positions with the values last written, sorted per row. If the reserved memory cannot hold the entries, compression or access fails with the documented exception and never loses an entry silently; the reported statistics match the pattern.",
 ["inputs","histories"],"all access sequences up to a small length with symbolic positions and values, all small average and overflow settings",
 "tests use fixed insertion sequences and check selected values",
 ["bcrsmatrix.hh"],[("overflow map and compression buffer","bcrsmatrix.hh entry/compress/implicit_allocate")]),
("C05","Sparse and dense matrix-vector products equal linear algebra",
 "Every matrix-vector kernel (assign, add, subtract and scaled add, each plain, transposed and Hermitian) of the sparse, diagonal, tridiagonal, dense and scaled identity block matrices yields, in exact arithmetic, the mathematically defined vector for every pattern, value and block structure. The matrix and the input vector are never modified, and components not covered by the result stay untouched. The checking mode refuses operands of wrong size and nothing else.",
 ["inputs"],"all patterns of small matrices (including empty rows and columns), all real or complex values, several block sizes",
 "tests use few matrices with fixed numbers and few of the kernels on non-trivial patterns",
 ["bcrsmatrix.hh","matrix.hh","bdmatrix.hh","btdmatrix.hh","scaledidmatrix.hh"],[("kernels","bcrsmatrix.hh mv..usmhv, matrix.hh mv..usmhv, scaledidmatrix.hh mv..usmhv")]),
("C06","Matrix arithmetic and matrix norms equal linear algebra",
 "Scaling, adding, subtracting and adding a multiple of a matrix changes every stored entry by the mathematically defined value and no other; dense transposition and products are exact. Frobenius and row-sum norms equal their definition over the stored entries, and a matrix containing NaN never has an ordinary number as row-sum norm.",
 ["inputs"],"all small patterns and values, all construction modes, real and complex entries",
 "tests compare a few norms of fixed matrices",
 ["bcrsmatrix.hh","matrix.hh","scaledidmatrix.hh"],[("arithmetic","bcrsmatrix.hh operator*=..axpy"),("norms","bcrsmatrix.hh frobenius_norm2/infinity_norm, matrix.hh")]),
("C07","Block vector algebra and norms equal linear algebra",
 "Addition, subtraction, scaling, scaled addition, the two inner products and all norms of block vectors equal their mathematical definition on the flat vector for every content, block structure and length, including zero length. The bilinear product does not conjugate and the Hermitian one conjugates its left argument; maximum norms propagate NaN.",
 ["inputs"],"all real and complex values, nested and flat blocks, all lengths up to a bound",
 "tests check fixed numbers only",
 ["bvector.hh","multitypeblockvector.hh","vbvector.hh"],[("arithmetic and norms","bvector.hh block_vector_unmanaged")]),
("C08","Variable block vectors keep their layout",
 "A vector of blocks of different sizes has exactly the block sizes it was given, its blocks are disjoint and cover its storage, and reading a component yields what was last written to it. Copies, assignments and resizing keep or replace the layout as documented and are independent of their source, and iterators, lookups and indices enumerate the blocks in order.",
 ["inputs","histories"],"all block size sequences up to a small bound, all values, all sequences of copy, assignment and resize",
 "tests use one or two layouts",
 ["vbvector.hh"],[("window set-up","vbvector.hh CreateIterator/resize/operator=")]),
("C09","Block vector containers behave like sequences",
 "Resizing, reserving, copying, assigning, swapping and constructing from lists keep exactly the elements the operation promises, never alias two vectors and never change the size other than asked. Windows and index-compressed vectors access precisely the elements they were declared for, lookups find an index iff it is present, and iteration is in order in both directions.",
 ["inputs","histories"],"all operation sequences up to a small length with symbolic sizes and values",
 "tests try single operations on fixed sizes",
 ["bvector.hh","basearray.hh"],[("storage","bvector.hh BlockVector"),("views","basearray.hh, bvector.hh CompressedBlockVectorWindow")]),
("C10","Index sets are sets and export exactly their pattern",
 "A matrix index set contains exactly the positions that were inserted or imported, whatever order, duplication or row size limit was used, and counts and enumerates every row sorted and without duplicates. Exporting it to a matrix yields a matrix with exactly that pattern.",
 ["inputs","histories"],"all sequences of insertions and imports up to a small length, all row size limits that switch the internal representation",
 "tests insert into one or two sets",
 ["matrixindexset.hh"],[("sorted vector / set switch","matrixindexset.hh add"),("export","matrixindexset.hh exportIdx")]),
("C11","Sparse matrix products equal linear algebra",
 "The products of two sparse matrices, with the left or right factor transposed or not, have the mathematically required pattern and values for every pair of patterns and all values, including empty rows and columns. Incompatible sizes are refused and the factors are not changed.",
 ["inputs"],"all pairs of small patterns, all values, non-square blocks",
 "tests multiply two fixed matrices",
 ["matrixmatrix.hh"],[("pattern traversal and accumulation","matrixmatrix.hh NonzeroPatternTraverser/EntryAccumulator")]),
("C12","Flat traversal and dimensions agree with the flattened object",
 "Flat traversal of nested vectors and matrices visits every scalar entry exactly once, with its index in the flattened object, and returns the flat dimensions. Flat dimension and nonzero queries of matrices agree with this flattening for every pattern of number and dense matrix blocks, including empty rows and columns; with blocks of dynamic size the block rows and columns without any entry count as empty. Row iteration visits every row once with its index, and copying or assigning iterators changes no entry.",
 ["inputs"],"all small patterns and nestings",
 "tests flatten a few full objects",
 ["foreach.hh","matrixutils.hh"],[("recursion with offsets","foreach.hh flatVectorForEach/flatMatrixForEach"),("dimension queries","matrixutils.hh MatrixDimension/countNonZeros")]),
("C13","Direct solves of special block matrices are exact",
 "Solving with (and inverting) block diagonal, block tridiagonal and scaled identity matrices yields, in exact arithmetic, the vector that multiplied by the matrix is the right-hand side, whenever the elimination meets no singular block. The right-hand side is unchanged, and these matrices keep exactly their declared structure when sized or re-sized.",
 ["inputs"],"all values, scalar and small dense blocks, sizes up to a bound",
 "tests solve with a few fixed matrices",
 ["bdmatrix.hh","btdmatrix.hh","scaledidmatrix.hh"],[("Thomas algorithm","btdmatrix.hh solve"),("diagonal solve","bdmatrix.hh solve/invert")]),
("C14","Heterogeneous block containers equal their flattening",
 "All arithmetic, products, vector and Frobenius norms and matrix-vector kernels (plain, transposed, Hermitian) of vectors and matrices with blocks of different types equal those of the flattened object for every content; the infinity norm of a matrix is the largest sum, over a row of blocks, of the infinity norms of the blocks. Maximum norms propagate NaN.",
 ["inputs"],"all values, blocks of different sizes and types",
 "tests use a few constant fillings",
 ["multitypeblockmatrix.hh","multitypeblockvector.hh"],[("per-block loops","multitypeblockmatrix.hh mv..usmhv, multitypeblockvector.hh")]),
("C15","Triangular and diagonal block solves are exact",
 "The lower and upper triangular and diagonal block solves, with or without unit diagonal and with or without relaxation, at every supported recursion level, return exactly the solution of the system with the corresponding triangular or diagonal part of the matrix, the diagonal being divided by the relaxation factor if one is given, for every pattern that has the diagonal. Only the result is modified, and entries outside of the triangle have no influence.",
 ["inputs"],"all small patterns with diagonal, all values, scalar, dense and nested blocks",
 "tests never compare these kernels with an oracle",
 ["gsetc.hh"],[("recursive kernels","gsetc.hh algmeta_btsolve/algmeta_bdsolve")]),
("C16","Relaxation steps follow their definition and keep the solution",
 "One Jacobi, Gauss-Seidel, forward or backward SOR step equals its mathematical definition, x plus the relaxed correction, for every pattern with diagonal, all values and all supported nestings. In particular the exact solution of the system is a fixed point of every step for every relaxation factor, and matrix and right-hand side are unchanged.",
 ["inputs"],"all small patterns with diagonal, all values, scalar, dense, nested and heterogeneous blocks",
 "tests only watch convergence of complete solvers",
 ["gsetc.hh","multitypeblockmatrix.hh"],[("recursive steps","gsetc.hh algmeta_itsteps, multitypeblockmatrix.hh MultiTypeBlockMatrix_Solver")]),
("C17","Incomplete LU factorizations satisfy their defining equations",
 "The product of the computed incomplete factors agrees with the matrix on every position of the allowed pattern (the matrix pattern for level zero; for level n the positions whose fill level, the number of eliminations it takes to create them, is at most n), and applying the factorization solves exactly with these factors; with complete fill it solves the original system. A missing diagonal, and a pivot whose inversion fails, is reported by the documented exception, and both storage variants give the same result.",
 ["inputs"],"all small patterns, all values with nonsingular pivots, scalar and dense blocks, fill levels up to a bound",
 "tests only compare solver iterations on a model problem",
 ["ilu.hh"],[("elimination","ilu.hh blockILU0Decomposition/blockILUDecomposition"),("solve","ilu.hh blockILUBacksolve/convertToCRS")]),
("C18","Incomplete LDL and diagonal ILU satisfy their defining equations",
 "The incomplete LDL factorization of a symmetric matrix reproduces the matrix on its pattern and its application solves exactly with the factors; the diagonal ILU satisfies its documented pivot recursion and its application solves exactly with the documented product. A missing diagonal, and a pivot whose inversion fails, is reported by the documented exception.",
 ["inputs"],"all small patterns, all values with nonsingular pivots, scalar and dense blocks",
 "tests only compare solver iterations on a model problem",
 ["ildl.hh","dilu.hh"],[("elimination and solve","ildl.hh bildl_decompose/bildl_backsolve, dilu.hh")]),
("C19","Preconditioners apply their documented operator and keep the defect",
 "Applying any of the sequential preconditioners to a defect, starting from a zero correction, yields exactly the documented linear operator for the configured number of steps, relaxation and fill level, never modifies the defect or the matrix, and repeating the application gives the same result. The preparation and clean-up steps leave solution and right-hand side unchanged, and with checking switched on a matrix without the required diagonal is refused.",
 ["inputs","configurations"],"all small patterns and values, all configurations of steps, relaxation and resorting",
 "tests run the preconditioners inside solvers on one problem",
 ["preconditioners.hh"],[("apply methods","preconditioners.hh SeqJac/SeqSOR/SeqSSOR/SeqILU/SeqDILU/SeqILDL/Richardson/InverseOperator2Preconditioner")]),
("C20","Iterative solvers report convergence honestly",
 "Whenever an iterative solver reports convergence, the defect norm it measured last (for MINRES in the norm of the preconditioner) is below the requested reduction times the initial defect norm or below the absolute bound; whenever it stops without that, it does not report convergence. It stops at the first measured norm that meets the criterion and otherwise only at the iteration limit or with the documented breakdown exception. The preconditioner is prepared and finished once and always applied to a cleared correction. The reported iteration count is the number of iterations performed and never exceeds the configured maximum, and the reported reduction is the ratio of the last and first measured norms.",
 ["inputs","histories"],"all sequences of measured norms and scalar products, all reductions and iteration limits up to a bound",
 "tests only see histories of well-behaved problems",
 ["solver.hh","solvers.hh"],[("iteration bookkeeping","solver.hh IterativeSolver::Iteration"),("loops","solvers.hh apply")]),
("C21","Krylov solvers return the solution and the true residual",
 "In exact arithmetic each iterative solver applied to a regular system of its class returns, when it reports convergence, an iterate whose true residual is what it claims, and the vector handed in as right-hand side contains the final residual where documented. On systems of dimension n the Krylov methods terminate with the exact solution after at most n iterations (2n matrix applications for the two-step method), for every starting value; the GMRes methods may instead end with the documented breakdown exception once the Krylov space is exhausted.",
 ["inputs"],"all regular (positive definite where required) systems of dimension 1 and 2, all right-hand sides and starting values",
 "tests solve a few model problems to a tolerance",
 ["solvers.hh"],[("recurrences","solvers.hh LoopSolver..CompleteFCGSolver")]),
("C22","Solvers abort on invalid numbers and handle trivial systems",
 "If a measured norm is infinite or not a number, or an inner product is not a number, every iterative solver aborts with the documented exception, at the latest when it measures the next defect; it never reports convergence and never returns an invalid iterate as its result. If the starting value already solves the system, each solver returns it unchanged, reports convergence with zero iterations and no invalid numbers.",
 ["inputs","fault_sequences"],"every position of the first invalid number in the history of measured quantities, all values",
 "tests inject one NaN at the first iteration",
 ["solver.hh","solvers.hh"],[("finiteness checks","solver.hh step, solvers.hh breakdown tests")]),
("C23","Per-call reduction only affects that call",
 "A solve with an explicitly requested reduction uses exactly that reduction, for every solver, and the next solve without one uses the configured reduction again, also when the call ended with an exception. A reused solver object gives the same result as a fresh one, and a warm start the same as solving for the correction from zero.",
 ["histories","inputs"],"all sequences of two or three calls with symbolic reductions, including failing calls",
 "tests call the solver once",
 ["solver.hh","solvers.hh"],[("temporary override","solver.hh IterativeSolver::apply")]),
("C24","Aggregation assigns every unknown exactly once",
 "Building aggregates maps every vertex of the matrix graph to exactly one aggregate number in range or to the isolated marker, aggregate numbers are gap free, each aggregate is connected (by strong connections unless it consists of isolated unknowns), and the isolated marker is used only for excluded vertices and, if the parameters ask to skip them, isolated ones. The reported counts match the map, for every graph and dependency structure, and no parameter choice makes it loop or read out of bounds.",
 ["inputs","configurations"],"all graphs with few vertices, all strong-connection patterns, parameter choices within bounds",
 "tests aggregate regular grids",
 ["paamg/aggregates.hh"],[("greedy aggregation","paamg/aggregates.hh Aggregator::build")]),
("C25","The Galerkin product is exactly restriction times matrix times prolongation",
 "For every fine matrix and every aggregation the coarse matrix has exactly the pattern implied by the aggregates and each of its entries is the sum of the fine entries between the two aggregates; isolated unknowns contribute nothing. Recomputing it after a change of the fine values gives the same result as computing it from scratch.",
 ["inputs"],"all small patterns, all aggregate maps, all values",
 "tests only check convergence of the multigrid solver",
 ["paamg/galerkin.hh"],[("pattern building and accumulation","paamg/galerkin.hh GalerkinProduct/ConnectivityConstructor")]),
("C26","Prolongation and restriction are adjoint aggregate transfers",
 "Restriction sums the fine values of each aggregate into its coarse component and prolongation adds the damped coarse value to every fine component of the aggregate, so that both are adjoint to each other up to the damping factor. Isolated components receive and contribute nothing.",
 ["inputs"],"all aggregate maps and values on few unknowns",
 "tests only check convergence of the multigrid solver",
 ["paamg/transfer.hh"],[("loops over aggregate map","paamg/transfer.hh Transfer")]),
("C27","Matrix graphs mirror the matrix and dependency marks follow the criterion",
 "The graph of a matrix has exactly the vertices and off-diagonal edges of the matrix, in order, with consistent lookups, subgraphs drop exactly the excluded vertices, and properties attached to vertices and edges stay attached to them. The strength-of-connection criteria mark precisely the edges whose documented measure exceeds the documented threshold.",
 ["inputs"],"all small patterns, all values and thresholds",
 "tests print graphs of one or two matrices",
 ["paamg/graph.hh","paamg/dependency.hh","paamg/aggregates.hh"],[("graph views","paamg/graph.hh"),("criteria","paamg/aggregates.hh SymmetricMatrixDependency etc.")]),
("C28","Multigrid cycles are the documented linear iteration",
 "One cycle of the two-level and multilevel methods equals, in exact arithmetic, the documented composition of pre-smoothing, coarse correction with the coarse operator and post-smoothing; the exact solution is a fixed point, the application is linear in the defect and leaves defect and matrices unchanged. Building the hierarchy yields on each level the Galerkin product of the level above. (FastAMG, which reads the lower half of the matrix instead of the upper one, is covered for symmetric matrices.)",
 ["inputs","configurations"],"small systems with all values, all smoothing step numbers and cycle types within bounds",
 "tests only watch convergence rates",
 ["paamg/amg.hh","paamg/twolevelmethod.hh","paamg/matrixhierarchy.hh"],[("cycle","paamg/amg.hh mgc, paamg/twolevelmethod.hh apply"),("hierarchy","paamg/matrixhierarchy.hh build")]),
("C29","Overlapping subdomain sweeps equal the Schwarz iteration",
 "One application of the sequential overlapping Schwarz method equals the documented additive, multiplicative or symmetric multiplicative iteration with the chosen subdomain solver (exact, dense, incomplete factorization), for every decomposition into nonempty subdomains (overlapping, permuted, incomplete), every relaxation factor, both ways to describe the subdomains and whether the local problems are set up in advance or on the fly. The defect is unchanged. The subdomains built for the multigrid smoother are the aggregates, pairs or neighbourhoods of unknowns with the chosen overlap.",
 ["inputs","configurations"],"all decompositions of few unknowns into few subdomains, all values",
 "tests run it inside a solver on one decomposition",
 ["overlappingschwarz.hh","paamg/smoother.hh"],[("assignment and correction","overlappingschwarz.hh AdditiveAdder/MultiplicativeAdder")]),
("C30","Compressed-column conversion is exact",
 "Converting a block matrix (or the selected rows and columns of it) to compressed-column storage yields exactly the flattened matrix: for every pattern column starts, row indices and values describe each scalar entry once, in order, and nothing else. Converting again, copying or assigning gives an independent and equal result.",
 ["inputs"],"all small patterns, block sizes, row subsets and values",
 "tests only use it through external solvers",
 ["bccsmatrixinitializer.hh","bccsmatrix.hh"],[("counting and filling passes","bccsmatrixinitializer.hh BCCSMatrixInitializer")]),
("C31","Direct solver front ends pass the right system and return its solution",
 "The front ends of the external direct solvers hand over exactly the (sub)matrix and right-hand side in the required storage, and map the solution back to the right components; a solver reused for a second matrix uses only the new one. Resources acquired for the external library are released exactly once for every sequence of calls.",
 ["inputs","histories"],"all small patterns and values, all call sequences up to a bound, with the external library replaced by a recording stand-in",
 "tests solve one matrix per library",
 ["umfpack.hh","ldl.hh","superlu.hh","cholmod.hh","spqr.hh"],[("conversion and permutation","umfpack.hh setMatrix/apply, ldl.hh, cholmod.hh")]),
("C32","Parallel vector operations count every unknown once",
 "With a domain decomposition described by owner, overlap and copy indices, the parallel inner product and norm count every owned unknown exactly once, projecting zeroes exactly the copy unknowns, and the exchange operations give every process the value of the source unknowns respectively add the values of the source unknowns on the other processes, for every order in which the processes run and messages arrive. Operators, scalar products and preconditioners that wrap sequential ones for such a decomposition apply the local object and then restore exactly this consistency; in the nonoverlapping operator every matrix entry counts once.",
 ["inputs","configurations"],"all attribute assignments of few unknowns on two or three processes, all values, several schedules",
 "tests use one regular decomposition",
 ["owneroverlapcopy.hh","schwarz.hh","scalarproducts.hh","novlpschwarz.hh"],[("owner mask","owneroverlapcopy.hh dot/norm/project"),("wrappers","schwarz.hh BlockPreconditioner/OverlappingSchwarzOperator")]),
("C33","Matrix Market files round trip",
 "Writing a vector or matrix in Matrix Market format and reading it back yields the same dimensions, pattern and values, for every pattern (also with empty rows and columns), block size, entry order and symmetry kind the reader supports. Malformed input is refused with the documented exception and never yields a silently wrong object. Storing and loading a distributed matrix or vector with its index information restores the local parts, the index sets and the communication on every process.",
 ["inputs"],"all small patterns, block sizes, header variants and entry orders",
 "tests round trip one full matrix",
 ["matrixmarket.hh"],[("writer","matrixmarket.hh writeMatrixMarket"),("reader","matrixmarket.hh readMatrixMarket/readSparseEntries")]),
("C34","Factories build the configured object",
 "Solver and preconditioner factories return an object of the configured type and with the configured parameters for every registered name, and refuse unknown names with the documented exception. Registration keeps every entry and the parameters left out take the documented defaults.",
 ["configurations"],"all registered names, all parameter combinations within bounds",
 "tests create some of the combinations",
 ["solverfactory.hh","solverregistry.hh","common/registry.hh"],[("registry","solverregistry.hh, common/registry.hh")]),
("C35","Eigenvalue iterations return eigenpairs",
 "When one of the vector iterations for eigenvalues returns normally, the returned vector has unit length and the residual of the returned pair is within the requested tolerance; otherwise it reports failure by exception after the configured number of iterations. Every linear solver call sees exactly the matrix minus the current shift. The ARPACK++ front end poses the eigenvalue problem of exactly the given matrix (or of A^T A for singular values), also for rectangular matrices, asks for the end of the spectrum its name promises, and returns the library's pair unchanged.",
 ["inputs"],"all small symmetric matrices and start vectors, all small rectangular matrices for the ARPACK++ front end",
 "tests run it on one model matrix",
 ["eigenvalue/poweriteration.hh","eigenvalue/arpackpp.hh"],[("iteration","eigenvalue/poweriteration.hh"),("operator wrapper","eigenvalue/arpackpp.hh ArPackPlusPlus_BCRSMatrixWrapper")]),
("C36","Redistribution preserves the global system",
 "Repartitioning and redistributing a matrix or vector keeps every row, entry and value: the global object is the same before and after, every row has exactly one owner, and the reverse redistribution sends the values back to the original owners. Every unknown goes where the graph partitioner put it, the new index sets hold the neighbours as copies and the new communication reaches their owners. (Known finding: nonoverlapping decompositions redistributed to more than one process.)",
 ["inputs"],"all distributions, sparsity patterns and partitionings of few unknowns on two or three processes",
 "tests redistribute one matrix",
 ["matrixredistribute.hh","repartition.hh"],[("communication of rows","matrixredistribute.hh redistributeMatrix")]),
("C37","Operators and scalar products are the objects they wrap",
 "An assembled operator applies exactly its matrix, the scaled add version adds the scaled product, and neither changes its input; the scalar products are the Hermitian inner product and its induced norm, and repeated use does not change anything. Shared ownership variants keep the matrix alive and behave the same.",
 ["inputs"],"all values and patterns",
 "tests use them inside solvers only",
 ["operators.hh","scalarproducts.hh"],[("forwarding","operators.hh MatrixAdapter, scalarproducts.hh")]),
("C38","Text output shows exactly the stored entries",
 "Writing matrices and vectors for Matlab emits each stored scalar entry exactly once, with its one-based flattened row and column (complex numbers as real and imaginary part) and its value in the requested precision, for every pattern and block structure including matrices without rows or columns, and nothing else. The pretty printers show every entry once at its place, mark positions that are not stored, and leave the format of the stream as they found it. The SVG writer hands each stored block and entry once to the options object with its multi-index and bounding box, and writes a balanced picture of positive size.",
 ["inputs"],"all small patterns and block sizes",
 "tests compare one file",
 ["io.hh"],[("recursive printing","io.hh writeMatrixToMatlabHelper/writeVectorToMatlabHelper/printmatrix")]),
("C39","Parallel multigrid levels are the global Galerkin hierarchy",
 "For a distributed matrix every level of the multigrid hierarchy has exactly one owner per unknown; aggregates consist of unknowns of one process, copies belong to the aggregate of their original (or are isolated with it), the coarse index sets hold exactly the aggregates that own or copy unknowns belong to, and the coarse communication reaches the owners. Owned rows of a coarse matrix are complete and equal the Galerkin product of the global fine matrix, copy rows carry the diagonal of the owner, also after recalculation with new values. Restriction sums over the aggregate and is zero at copies, prolongation adds the damped coarse value. Where levels are accumulated, the first process holds the whole global matrix. One application of the multigrid cycle (V, W, additive) on several processes is the textbook cycle on the global hierarchy, with the given coarse solver, independent of earlier applications, and gives the same values at all copies of an unknown.",
 ["inputs"],"all ownerships, symmetric sparsity patterns and values of few unknowns on two or three processes",
 "tests only run the parallel multigrid as a preconditioner on regular grids, where a wrong coarse matrix merely converges slower",
 ["paamg/matrixhierarchy.hh","paamg/indicescoarsener.hh","paamg/globalaggregates.hh","paamg/galerkin.hh","paamg/transfer.hh","paamg/graphcreator.hh","paamg/amg.hh"],[("coarse index sets","paamg/indicescoarsener.hh coarsen"),("aggregates of copies","paamg/globalaggregates.hh publish"),("parallel Galerkin product","paamg/galerkin.hh build/calculate"),("levels and accumulation","paamg/matrixhierarchy.hh build/recalculateGalerkin"),("parallel cycle","paamg/amg.hh mgc/moveToCoarseLevel/moveToFineLevel")]),
]
NA = json.load(open(V + "/tools/na.json")) if os.path.exists(V + "/tools/na.json") else {}
ids = set()
with open(V + "/properties.jsonl", "w") as f:
    for id, t, s, o, q, w, files, mech in P:
        assert len(t) <= 80, t
        f.write(json.dumps({"id": id, "title": t, "statement": s, "quantifier": {"over": o, "text": q}, "why_tests_cant": w,
          "anchors": {"files": [I + x for x in files], "mechanism": [{"name": a, "where": I + b} for a, b in mech]}}) + "\n"); ids.add(id)
checks = []; na = []
for id, t, *_ in P:
    if id in NA: na.append({"property": id, "reason": NA[id]}); continue
    h = sorted(glob.glob(V + "/harness/" + id + "*.cc"))
    if not h: na.append({"property": id, "reason": "no check yet: the harness for this property is not built"}); continue
    checks.append({"property": id, "quick_cmd": "python3 engine/check.py " + id, "thorough_cmd": "python3 engine/check.py " + id,
      "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver, bounded", "level": "model_checking",
      "level_note": "all paths and all symbolic values within the bounds listed in the evidence; " + ("real arithmetic (no rounding) unless the harness says fp" )})
json.dump({"version": 1, "setup_cmd": "python3 engine/check.py --setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
