#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand when a property changes)."""
import json
def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    over = list(dict.fromkeys(over))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    return d
I='dune/istl/'
L = [
P('K01','Matrix-vector products use every stored entry once, in its place',
 "For every matrix shape and sparsity pattern, every vector and every scalar, each matrix-vector product of the block-sparse, dense, scaled-identity and heterogeneous block matrices (plain, transposed, Hermitian; assigning, adding, subtracting, scaled) combines each stored entry exactly once with the input and output components its row and column index prescribe, with the sign and scalar the operation's name promises. Output components are reset first exactly by the assigning variants, and the inputs are never modified.",
 ['inputs','inputs'],'all matrices incl. empty rows, rectangular and irregular patterns; all twelve product variants',
 'A test multiplies a few regular matrices; it cannot cover every pattern (empty rows, rectangular, missing diagonals) in each of some fifty product routines, half of which no test calls.',
 [I+'bcrsmatrix.hh',I+'matrix.hh',I+'scaledidmatrix.hh',I+'multitypeblockmatrix.hh',I+'operators.hh'],
 [('BCRSMatrix mv/umv/mmv/usmv/mtv/umtv/mmtv/usmtv/umhv/mmhv/usmhv',I+'bcrsmatrix.hh'),('Matrix products',I+'matrix.hh'),('ScaledIdentityMatrix products',I+'scaledidmatrix.hh'),('MultiTypeBlockMatrix products',I+'multitypeblockmatrix.hh'),('MatrixAdapter apply/applyscaleadd',I+'operators.hh')]),
P('K02','Vector-space operations and reductions touch every block exactly once',
 "For vectors and matrices of every size, the in-place arithmetic (assignment of a scalar, addition, subtraction, scaling, scaled addition) of block vectors, heterogeneous block vectors, sparse, dense and heterogeneous matrices applies the operation to every stored block exactly once, pairing blocks of equal index. Scalar products and one-, two-, infinity- and Frobenius norms accumulate exactly one contribution per stored block, and the Hermitian product conjugates its left argument.",
 ['inputs','inputs'],'all container sizes including zero, all operations of each container',
 'Tests sample a few sizes and rarely the empty, single-block or NaN cases of every operation of every container.',
 [I+'bvector.hh',I+'vbvector.hh',I+'bcrsmatrix.hh',I+'matrix.hh',I+'multitypeblockvector.hh',I+'multitypeblockmatrix.hh',I+'scaledidmatrix.hh'],
 [('block_vector_unmanaged arithmetic and norms',I+'bvector.hh'),('BCRSMatrix arithmetic and norms',I+'bcrsmatrix.hh'),('Matrix arithmetic and norms',I+'matrix.hh'),('MultiTypeBlockVector arithmetic',I+'multitypeblockvector.hh'),('MultiTypeBlockMatrix arithmetic',I+'multitypeblockmatrix.hh')]),
P('K03','Relaxation and triangular sweeps visit rows and neighbours as documented',
 "For every matrix pattern, one Jacobi, Gauss-Seidel, forward or backward SOR sweep, and one lower/upper triangular or diagonal solve, visits every block row exactly once in its direction, subtracts every off-diagonal (resp. strictly triangular) entry of that row exactly once times the component it belongs to (old values only for Jacobi, latest values for the others), solves with the diagonal block, and applies the damping factor exactly once. The right-hand side is never modified.",
 ['inputs','inputs'],'all patterns with a stored diagonal, all damping factors',
 'Convergence tests pass with a sweep that skips a row, uses one stale neighbour or damps twice; the fixed point is the same.',
 [I+'gsetc.hh',I+'preconditioners.hh'],
 [('dbjac/dbgs/bsorf/bsorb/bltsolve/butsolve/bdsolve and friends',I+'gsetc.hh'),('SeqJac/SeqSOR/SeqSSOR/SeqGS apply',I+'preconditioners.hh')]),
P('K04','Incomplete factor application and factorisation stay inside the pattern',
 "Applying an incomplete LU, DILU or LDL decomposition processes every row once forward and once backward, uses each strictly lower entry exactly once in the first sweep, each strictly upper entry exactly once in the second, and one inverted diagonal per row. Building the decomposition never reads or writes outside the stored pattern, and a singular pivot or missing diagonal ends in an exception that names the block, never in a silently wrong factor.",
 ['inputs','inputs'],'all patterns, including rows without lower or upper entries and without diagonal',
 'An ILU that drops one entry or solves with a stale diagonal still preconditions well; missing-diagonal and breakdown cases are not in the tests.',
 [I+'ilu.hh',I+'dilu.hh',I+'ildl.hh',I+'preconditioners.hh'],
 [('blockILUBacksolve, convertToCRS, blockILU0Decomposition',I+'ilu.hh'),('blockDILUDecomposition/Backsolve',I+'dilu.hh'),('bildl_decompose/backsolve',I+'ildl.hh')]),
P('K05','Parallel scalar products are Hermitian and count each owned unknown once',
 "Every scalar product and norm, sequential or parallel, is Hermitian in the same argument order, counts each unknown exactly once across processes (owner or non-copy entries only), sums over all processes before any square root is taken, and the value every process obtains is the reduced one. It never depends on stale ownership information or on the (finite) values stored in entries the process does not own.",
 ['inputs','configurations','configurations'],'all vectors, real or complex, and all ownership layouts, on any number of processes',
 'Tests use real scalars and one or two index layouts, so a lost conjugation or a double-counted copy entry is invisible.',
 [I+'scalarproducts.hh',I+'owneroverlapcopy.hh',I+'schwarz.hh',I+'novlpschwarz.hh'],
 [('SeqScalarProduct / ParallelScalarProduct',I+'scalarproducts.hh'),('OwnerOverlapCopyCommunication::dot/norm',I+'owneroverlapcopy.hh')]),
P('S01','Solvers bracket preconditioner use with exactly one pre and one post',
 "On every run of an iterative solver that returns normally, whatever the data, tolerances and iteration limits, the preconditioner is prepared exactly once before it is first applied and cleaned up exactly once after its last application. Preconditioners that wrap another one forward preparation and clean-up to it exactly once per call.",
 ['inputs','histories'],'all solvers, all matrices/right-hand sides, zero iterations, immediate convergence, breakdown-free exit at the limit',
 'Sequential preconditioners have empty preparation and clean-up, so a test notices neither a missing nor a repeated call; early-exit paths are rarely executed.',
 [I+'solvers.hh',I+'solver.hh',I+'preconditioners.hh',I+'schwarz.hh',I+'novlpschwarz.hh'],
 [('apply of Loop/Gradient/CG/BiCGSTAB/MINRES/GMRes/FGMRes/GeneralizedPCG/FCG/CompleteFCG',I+'solvers.hh'),('BlockPreconditioner pre/post',I+'schwarz.hh'),('NonoverlappingBlockPreconditioner pre/post',I+'novlpschwarz.hh'),('InverseOperator2Preconditioner',I+'preconditioners.hh')]),
P('S02','The reported solver result is complete and converged means converged',
 "Whenever an iterative solver returns normally, every field of the result record has been set by that call; success is reported only if the last measured defect met the criterion (requested relative reduction of the initial defect, or practically zero), and the reported reduction, rate and iteration count belong to that measurement. A defect that is not finite always ends in an exception, and a run left by an exception never reports success.",
 ['inputs','histories'],'all inputs incl. zero right-hand sides, NaN/Inf defects, limits reached',
 'Tests check that well-conditioned problems converge; non-finite defects, exits at the limit and stale result records are not sampled.',
 [I+'solver.hh',I+'solvers.hh'],
 [('IterativeSolver::Iteration step/finalize',I+'solver.hh'),('each solver apply',I+'solvers.hh')]),
P('S03','Iterative solvers stop after at most the allowed number of iterations',
 "For all inputs and all admissible parameters every iterative solver terminates: every loop of a solve that applies the operator or the preconditioner is limited by the maximum iteration count (or the restart length) through a counter that advances on each pass. A loop is left as soon as the stopping test has succeeded, and restarted methods begin each new cycle from a freshly computed residual.",
 ['inputs','configurations'],'all matrices (also non-convergent), all values of iteration limit and restart length',
 'Tests run convergent problems with generous limits; off-by-one at the limit and restart boundaries need specific parameter combinations.',
 [I+'solvers.hh'],
 [('iteration and restart loops',I+'solvers.hh')]),
P('S04','Solution updates and defect updates stay consistent',
 "In every iterative solver that updates the defect by recurrence, each correction added to the solution is matched, before control can leave the iteration in any way, by the same multiple of the operator image of that correction subtracted from the defect, where the image was computed from the unchanged correction. Directions and their images are never mixed up between iterations.",
 ['inputs','histories'],'all inputs and all exits (converged at half step, at limit, at full step)',
 'An inconsistency on a rarely taken exit (half step, last iteration) leaves the reported convergence intact and only the returned pair is wrong.',
 [I+'solvers.hh'],
 [('update recurrences of Loop, Gradient, CG, BiCGSTAB, GeneralizedPCG, FCG',I+'solvers.hh')]),
P('S05','Verbosity never influences results or communication',
 "For every verbosity or debug level the library computes the same values, modifies the same data that outlives the call, throws the same exceptions and performs the same communication for its results: code that runs only because of the verbosity does nothing but compute what it prints, and print. Where such code communicates (sums of sizes, barriers around timings), all processes with that verbosity enter the communication, none of them selected by its rank, and the outcome is only printed.",
 ['configurations','inputs'],'all verbosity/debug levels of all solvers, preconditioners, AMG set-up and repartitioning',
 'Tests run each component at one verbosity; a value computed only when printing goes unnoticed.',
 [I+'solver.hh',I+'solvers.hh',I+'paamg/amg.hh',I+'paamg/matrixhierarchy.hh',I+'paamg/aggregates.hh',I+'repartition.hh',I+'superlu.hh',I+'umfpack.hh'],
 [('verbose-guarded regions',I+'solvers.hh'),('debugLevel-guarded regions',I+'paamg/matrixhierarchy.hh'),('verbose parameters',I+'repartition.hh')]),
P('S06','An explicit reduction request governs exactly one solve',
 "When a solve is requested with an explicit reduction, that value, and not the one the solver was constructed with, decides convergence of this solve. Afterwards, however the solve ended (success, limit, exception), the solver behaves as if the explicit request had never been made.",
 ['histories','inputs'],'all solvers, all sequences of solves with and without explicit reduction, with and without failures',
 'Needs a sequence: an explicit-reduction solve that throws followed by an ordinary solve; no test has it.',
 [I+'solver.hh',I+'solvers.hh'],
 [('apply(x,b,reduction,res)',I+'solver.hh'),('GMRes apply overloads',I+'solvers.hh')]),
P('C01','Components of different parallel categories cannot be combined',
 "Every constructor of an iterative solver and of a multigrid method or matrix hierarchy accepts only components whose declared solver categories agree (sequential ones where no scalar product is given) and otherwise throws before the object exists; a solver used as preconditioner is rejected when a demanded category differs; every component declares the category that matches the communication it performs, and the scalar product made for a category declares that category. Sequential components always declare the sequential category, wrappers that add communication declare the category of that communication.",
 ['configurations'],'all solver/preconditioner/operator/scalar product constructors and all combinations of the three categories',
 'Tests only combine matching components; a missing or one-sided check is never exercised.',
 [I+'solver.hh',I+'solvercategory.hh',I+'schwarz.hh',I+'novlpschwarz.hh',I+'scalarproducts.hh',I+'preconditioners.hh',I+'operators.hh',I+'paamg/amg.hh',I+'owneroverlapcopy.hh'],
 [('IterativeSolver constructors',I+'solver.hh'),('category() overrides',I+'preconditioners.hh'),('createScalarProduct',I+'scalarproducts.hh')]),
P('C02','All processes take part in the same collective operations',
 "Whether, and in which order, a process enters a collective operation (reduction, gather, barrier, communicator split) depends only on values that are equal on all processes: parameters, process count and results of earlier collectives, never on the local rank, local sizes or local data alone; an iterative solver applies the components that communicate under such conditions only. No process can skip a collective the others wait in (a process that holds no data after the matrix was gathered on fewer processes takes no part in the communicator of those).",
 ['schedules','configurations','configurations'],'all data distributions, including processes without any unknowns',
 'A process-local shortcut only deadlocks for particular distributions (an empty process, one process done earlier).',
 [I+'paamg/matrixhierarchy.hh',I+'paamg/amg.hh',I+'paamg/fastamg.hh',I+'repartition.hh',I+'matrixredistribute.hh',I+'owneroverlapcopy.hh',I+'solvers.hh',I+'paamg/globalaggregates.hh'],
 [('build of the matrix hierarchy',I+'paamg/matrixhierarchy.hh'),('graphRepartition and buildCommunication',I+'repartition.hh'),('dot/norm',I+'owneroverlapcopy.hh')]),
P('C03','Each data exchange uses the matching set of owner, overlap and copy indices',
 "Each exchange of the owner/overlap/copy communication moves data between exactly the index classes its name says (for instance from owners to all others), overwrites where it copies and accumulates where it adds, and builds its communication interface at most once per index-set state. After the index sets are rebuilt no stale interface or ownership mask is ever used.",
 ['histories','configurations'],'all sequences of exchanges and index-set rebuilds, all attribute layouts',
 'Tests run one or two exchange kinds on one fixed layout; swapped attribute sets or stale interfaces need overlap and copy indices together or a rebuild.',
 [I+'owneroverlapcopy.hh',I+'schwarz.hh',I+'novlpschwarz.hh'],
 [('copyOwnerToAll, addOwnerOverlapToAll, buildXXXInterface',I+'owneroverlapcopy.hh')]),
P('M01','Sparse matrices reject operations in the wrong build stage',
 "For every sequence of calls on a sparse matrix, a set-up operation that is not allowed in the current build mode or stage (row sizes after they are final, indices before row sizes are final, compression without implicit mode, and with run-time checking enabled access to rows and entries before they exist) throws before changing anything, and each successful call moves build mode, build stage and sizes exactly as documented. Row, index and overflow capacity is checked before anything is stored, so a rejected insertion leaves the pattern as it was.",
 ['histories','inputs'],'all sequences of set-up calls in all build modes',
 'Tests follow the documented order; wrong-order and over-full cases are sampled a handful of times.',
 [I+'bcrsmatrix.hh'],
 [('setrowsize/incrementrowsize/endrowsizes/addindex/setIndices/endindices/entry/compress/CreateIterator',I+'bcrsmatrix.hh')]),
P('M02','Checked builds reject mismatched dimensions before touching data',
 "With run-time checking enabled, every matrix-vector product, vector operation and element access of the sparse, dense and block containers compares all participating sizes (both the row and the column side) and throws before modifying any operand when they disagree.",
 ['inputs','configurations'],'all products and element accesses, every pair of sizes',
 'Tests are run with matching sizes and mostly with checking disabled; one missing or swapped comparison is not seen.',
 [I+'bcrsmatrix.hh',I+'matrix.hh',I+'bvector.hh',I+'vbvector.hh',I+'basearray.hh'],
 [('DUNE_ISTL_WITH_CHECKING guards',I+'bcrsmatrix.hh')]),
P('M03','Container storage is released exactly once and with the size it was obtained',
 "Every block of storage a matrix or vector container obtains is returned exactly once, to the same allocator and with the same element count, whatever the order of construction, resizing, copying, assignment and destruction; element constructors and destructors are paired the same way. The published size of a container always equals the size of the storage behind it.",
 ['histories'],'all sequences of set-up, resize, copy, assign, destroy; all allocators',
 'The default allocator ignores the size argument, so a wrong count or a leak in an unusual sequence passes all tests.',
 [I+'bcrsmatrix.hh',I+'bvector.hh',I+'vbvector.hh',I+'matrix.hh'],
 [('allocate/deallocate',I+'bcrsmatrix.hh'),('BlockVector storage and size synchronisation',I+'bvector.hh'),('VariableBlockVector allocate',I+'vbvector.hh')]),
P('M04','Read-only use writes no shared state',
 "Operations documented as read-only (products, norms, lookups, iteration, applying operators to distinct outputs) write nothing reachable from the object they are called on, except explicitly documented lazily built communication data, and the library keeps no mutable state shared between independent objects. Concurrent read-only use of one object is therefore free of data races.",
 ['schedules'],'all interleavings of read-only operations on a shared object from several threads',
 'A race needs a particular interleaving; single-threaded tests cannot show one.',
 [I+'bcrsmatrix.hh',I+'bvector.hh',I+'matrix.hh',I+'operators.hh',I+'schwarz.hh',I+'novlpschwarz.hh',I+'owneroverlapcopy.hh',I+'scalarproducts.hh'],
 [('const member functions of containers and operators',I+'bcrsmatrix.hh')]),
P('D01','Direct solvers own, reuse and release their factorisations correctly',
 "For every sequence of setting a matrix, solving, replacing the matrix and destruction, each direct-solver wrapper releases every factorisation, work array and library handle it obtained exactly once, never uses one that was released or never built, and never leaks the previous factorisation when a new matrix is set. Solves leave the factorisation intact.",
 ['histories'],'all sequences of construction, setMatrix, setSubMatrix, apply, destruction, including empty matrices and failures during factorisation',
 'Leaks and double releases appear only after particular sequences (re-setting, failing, emptying) that tests do not run.',
 [I+'superlu.hh',I+'umfpack.hh',I+'ldl.hh',I+'spqr.hh',I+'cholmod.hh',I+'bccsmatrix.hh'],
 [('free/decompose/setMatrix',I+'umfpack.hh'),('free/decompose',I+'superlu.hh'),('free/decompose',I+'ldl.hh'),('free/decompose',I+'spqr.hh'),('setMatrix',I+'cholmod.hh'),('BCCSMatrix::free',I+'bccsmatrix.hh')]),
P('F01','Every documented configuration key reaches the parameter it names',
 "Constructing a solver, preconditioner or multigrid hierarchy from a configuration tree has the same effect as passing the documented values directly: each documented key is read with its own spelling and a type that can represent it, is stored in the parameter it names and in no other, and an unknown option value is rejected by an exception. Keys that are absent leave the documented default in place.",
 ['configurations'],'all keys of all configurable components, all values',
 'Tests set a few keys to default-like values, so a key that is ignored, truncated or routed to a neighbour goes unnoticed.',
 [I+'solver.hh',I+'solvers.hh',I+'preconditioners.hh',I+'paamg/amg.hh',I+'solverregistry.hh',I+'solverfactory.hh'],
 [('ParameterTree constructors',I+'preconditioners.hh'),('AMG ParameterTree constructor',I+'paamg/amg.hh'),('IterativeSolver ParameterTree constructor',I+'solver.hh')]),
P('F02','Factory-created components are wrapped for the operator they serve',
 "A preconditioner or solver obtained by name from the factory for a parallel operator is wrapped so that its category matches the operator, gets the scalar product and communication of that operator, and a direct solver name is refused for operators distributed over more than one process. An unknown name or unsupported type always throws; a null component is never returned.",
 ['configurations','configurations'],'all registered names and operator kinds',
 'Tests use a few names on one process; refusal for distributed operators needs several processes.',
 [I+'solverfactory.hh',I+'solverregistry.hh',I+'superlu.hh',I+'umfpack.hh',I+'ldl.hh',I+'spqr.hh',I+'cholmod.hh'],
 [('getPreconditionerFromFactory/getSolverFromFactory',I+'solverfactory.hh'),('DUNE_REGISTER_SOLVER creators',I+'solverregistry.hh')]),
P('I01','Matrix Market reading never trusts the file',
 "Reading a Matrix Market file either produces exactly the entries of the file (one-based indices shifted by one, symmetric kinds mirrored) or throws: no index, dimension or count taken from the file is used to access memory before it has been compared with the corresponding bound, and every header keyword the writer emits is one the reader accepts with the same meaning. (The additional index files of distributed matrices are not part of this.)",
 ['inputs'],'all byte sequences as input files',
 'Tests read well-formed files; malformed and truncated ones are unbounded in variety.',
 [I+'matrixmarket.hh'],
 [('readMatrixMarketBanner, readSparseEntries, MatrixValuesSetter, mm_header_printer',I+'matrixmarket.hh')]),
P('I02','Iterators visit every position once and know its index',
 "An iterator of a block vector, of a variable-block vector, or over the rows or entries of a sparse matrix or the rows of a dense or scaled-identity matrix stands for a position in the storage of its container: begin, end, the positions before them and look-up give the position their name says, steps, jumps and distances move and count by exactly that many positions, copies, assignments and conversions to constant iterators keep the position and write nothing but the iterator, equality compares positions, and index() is the index of the entry at the position.",
 ['inputs'],'all containers sizes, positions and jumps',
 'Tests walk forward over a few containers; backward steps, conversions, end positions and indices away from the start are not observed.',
 [I+'basearray.hh',I+'bcrsmatrix.hh',I+'bvector.hh',I+'vbvector.hh',I+'matrix.hh'],
 [('RealIterator, CompressedBlockVector iterators',I+'basearray.hh'),('RealRowIterator',I+'bcrsmatrix.hh'),('Iterator/ConstIterator',I+'vbvector.hh'),('DenseMatrixBase::Iterator/ConstIterator',I+'matrix.hh')]),
P('A01','Multigrid transfer and traversal are consistent between levels',
 "Restriction adds each fine entry into exactly the aggregate it belongs to and prolongation adds the damped coarse value of that aggregate to exactly those entries, both leaving out entries without an aggregate. Descending and ascending one level move all per-level data together, every level's pre- and post-smoothing happens as often as configured, and a cycle returns with all level data back on the finest level.",
 ['inputs','histories'],'all aggregate maps incl. isolated entries, all cycle types, all hierarchy depths, with and without redistribution',
 'A mismatch on redistributed or last levels only slows convergence or needs many processes to appear.',
 [I+'paamg/transfer.hh',I+'paamg/amg.hh',I+'paamg/fastamg.hh',I+'paamg/kamg.hh',I+'paamg/twolevelmethod.hh'],
 [('prolongateVector/restrictVector',I+'paamg/transfer.hh'),('moveToCoarseLevel/moveToFineLevel/mgc',I+'paamg/amg.hh'),('moveToCoarseLevel/moveToFineLevel/mgc',I+'paamg/fastamg.hh')]),
P('H01','Every public header can be used alone and from several source files',
 "Each public header of the library compiles when it is the only one included, in every supported configuration (with and without MPI and the optional solver libraries), and may be included by any number of source files of one program: it defines no non-inline function or variable with external linkage.",
 ['configurations','programs'],'all public headers, all include orders, all combinations of source files',
 'Each test includes a fixed set of headers in one source file and one configuration.',
 [I+'bcrsmatrix.hh',I+'paamg/amg.hh',I+'io.hh',I+'matrixmarket.hh',I+'solvers.hh'],
 [('all headers below dune/istl','dune/istl')]),
# --- not claimed with this technique
P('N01','Krylov solvers converge to the requested accuracy',
 "For a non-singular matrix of the class a Krylov method supports and enough iterations, the returned solution has a true residual reduced by the requested factor up to rounding.",
 ['inputs'],'all supported matrices and right-hand sides','numerical convergence over all matrices',
 [I+'solvers.hh'],[('Krylov recurrences',I+'solvers.hh')]),
P('N02','Multigrid convergence is independent of the mesh width',
 "The number of multigrid-preconditioned iterations stays bounded when an elliptic problem is refined.",
 ['inputs'],'all problem sizes','asymptotic statement about infinitely many problem sizes',
 [I+'paamg/amg.hh'],[('aggregation AMG',I+'paamg/aggregates.hh')]),
P('N03','Writing and re-reading a matrix reproduces it',
 "A matrix or vector written in Matrix Market format with full precision and read back compares equal entry by entry.",
 ['inputs'],'all finite values','round trip of all floating point values',
 [I+'matrixmarket.hh'],[('store/load',I+'matrixmarket.hh')]),
P('N04','Eigenvalue iterations return the extremal eigenpair',
 "Power, inverse and Rayleigh quotient iterations return an approximation of the eigenpair they name within the tolerance requested.",
 ['inputs'],'all diagonalisable matrices and start vectors','numerical convergence over all matrices',
 [I+'eigenvalue/poweriteration.hh',I+'eigenvalue/arpackpp.hh'],[('PowerIteration_Algorithms',I+'eigenvalue/poweriteration.hh')]),
]
with open('/verif/properties.jsonl','w') as f:
    for d in L:
        assert len(d['title'])<=80, d['title']
        f.write(json.dumps(d)+'\n')
print(len(L))
