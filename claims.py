claim('K01', 'effect-summary equivalence against specification functions on LLVM IR',
      'Every product kernel of the sparse, dense, heterogeneous and scaled-identity matrices is summarised (block operation, operands as functions of loop indices, loop ranges, conditions, order of conflicting accesses) and must equal its specification summary.')
claim('K02', 'effect-summary equivalence against specification functions on LLVM IR',
      'In-place arithmetic, scalar products and norms of all vector and matrix containers: block operation, operands, index ranges, conditions and the accumulated return value must equal those of the specification.')
claim('S01', 'typestate by path-sensitive abstract interpretation on LLVM IR',
      'pre -> apply* -> post automaton for every iterative solver over every feasible path to a normal return; correlated branches are resolved with boolean and linear facts.')
claim('S03', 'path-sensitive abstract interpretation (linear inequalities + typestate) on LLVM IR',
      'Proves counter <= maxit at every measurement, strictly growing counters, a measurement per pass of every non-counted loop, no work after success and fresh residuals after restarts.')
claim('S02', 'path-sensitive value analysis (decision tables against a prescription) and abstract interpretation on LLVM IR',
      'The iteration control is compared path by path with its prescription (criterion, statistics, abort, move); every solver is shown to measure the current defect, initial measurement first, and to change nothing after the last measurement.')
claim('S06', 'path-sensitive value flow of the reduction member, exceptional edges included, on LLVM IR',
      'On every path of an explicit-reduction solve the started solve sees the requested value and every normal or exceptional exit leaves the original value; plain solves never write it; the convergence decision reads it.')
claim('S04', 'path-sensitive dataflow of image facts and unmatched corrections on LLVM IR; effect-summary equivalence for the helpers',
      'For every solver that updates the defect by recurrence: each correction added to the solution is matched by the same multiple of the operator image of that unchanged correction before the defect is used or the pass is left; helper routines equal their specifications.')
claim('K03', 'set-of-states abstract interpretation of row sweeps (opaque iterators, formulas over run sums) on LLVM IR',
      'Every relaxation sweep and triangular/diagonal solve, scalar and block entries, nested levels and heterogeneous matrices, is interpreted over all row shapes; the value each row obtains must equal its specification. The sweep preconditioners call the right kernel with the right arguments.')
claim('K04', 'set-of-states abstract interpretation of factorisation and backsolve (linear-order shape domain for rows) on LLVM IR',
      'Backsolves: one ascending pass over every strictly lower entry, one descending pass over every strictly upper entry, inverted diagonal once. Factorisations: eliminations in order, no index pair skipped or used twice, no access past a row, rows without diagonal throw. Conversion to split storage: every entry once with exact row starts.')
claim('H01', 'compiler front end on one translation unit per header and configuration; linkage query over the resulting IR',
      'Each public header compiles alone with and without MPI and solver libraries, and no strong definition appears in two units.')
claim('M01', 'path-sensitive decision tables of every set-up call per build mode and stage on LLVM IR, compared with prescribed tables',
      'Admission, transition, nothing written on rejecting paths, and room for every insertion, for all combinations of mode, stage and arguments, with and without run-time checking. Memory allocation failures and the documented exhaustion of the overflow area during compress are outside.')
claim('M02', 'path-sensitive decision tables of every checked operation on LLVM IR, compared with the prescribed size relations',
      'Products, vector operations, row and entry access of sparse, dense, scaled-identity, block, index-set and variable-block containers, compiled with run-time checking: rejection exactly when the sizes disagree, nothing written before.')
claim('C01', 'path-sensitive decision tables of constructors (category calls as uninterpreted functions, virtual tables resolved) and constant propagation of category() on LLVM IR',
      'All public constructors of the ten iterative solvers, AMG, MatrixHierarchy and the solver-as-preconditioner wrapper; the declared category of 30 component types; the scalar product factory.')
claim('M03', 'path-sensitive ownership balance (address/count pairs, element ranges) on LLVM IR; effect-summary equivalence for windows',
      'All constructors, assignments, resizing, building and destruction of the sparse, dense and compressed-column matrices and of the block and variable-block vectors, exits by the library\'s own exceptions included. Failing allocations are outside the model, reference counts of shared_ptr and std::vector are trusted.')
claim('A01', 'path-sensitive tables of opaque calls (level data as array elements, recursion by induction) on LLVM IR, compared with the prescribed cycle',
      'AMG and FastAMG: multiplicative and additive cycles, coarsest-level solves, moves between levels, transfer operators, smoothing schedules and pre/post; the calls, their arguments, their level and their order must be those of the documented method on every path. The numerical quality of the hierarchy is not addressed.')
claim('F01', 'path-sensitive tables of constructors from a configuration (keys as uninterpreted queries) on LLVM IR, compared with the documented keys',
      'All iterative solvers, the sequential preconditioners and the multigrid constructor: every parameter is read from its documented key with its documented type and default, stored where it belongs, applied in the documented order, and unknown option values are rejected.')
claim('S05', 'interprocedural information-flow (taint) analysis over data and control dependence on LLVM IR, kept in its source control flow',
      'Sources: every verbosity member and parameter of solvers, AMG and FastAMG, hierarchy set-up, aggregation, repartitioning and the direct solvers. Sinks: stores that outlive the call, calls other than printing, exceptions, returned values, collectives under rank conditions. Assumes that the verbosity is the same on all processes of a communicator; printing primitives and the report functions of the direct-solver libraries are trusted.')
claim('M04', 'interprocedural effect analysis (provenance of every written address, composed summaries) on LLVM IR',
      'Read-only operations of all containers, operators, scalar products, preconditioner applications and solver factories write nothing but their result arguments, locals and memory they allocated; no function writes process-wide state. Reference counts, guarded static initialisation, streams and the MPI operation objects of dune-common are exempt; the documented lazily built communication data of the parallel index information is exempt.')
claim('C02', 'interprocedural information-flow (taint) analysis over data and control dependence from process-local values to the conditions around collective operations, on LLVM IR kept in its source control flow',
      'Sources: the rank, sizes and contents of process-local vectors, matrices, graphs and index sets, received messages. Cleansed by the results of collective operations, parameters, process counts, the shape of the hierarchy and the results of measurements by the scalar product. Sinks: entering an MPI collective, or a function or virtual component that performs one. Covers hierarchy set-up, AMG cycles, repartitioning, redistribution, owner/overlap/copy communication, scalar products, overlapping and nonoverlapping operators and preconditioners and all iterative solvers. Assumes that operators, preconditioners and scalar products themselves are uniform, and that the hierarchy has the same shape on all processes that share a communicator.')
claim('K05', 'effect-summary equivalence against specification functions on LLVM IR',
      'dot and norm of the owner/overlap/copy communication (real, complex and block entries) and every scalar product class: entries, mask, conjugation, order of summation and square root, and the reduction over processes must equal those of the specification; the mask is 0 at entries the process does not own, 1 at all others, and belongs to the current index set. The index set and the MPI wrapper are stand-ins for dune-common.')
claim('C03', 'path-sensitive tables of opaque exchanges and effect-summary equivalence on LLVM IR; typestate of lazily built interfaces',
      'All five exchanges and their interface builders: attribute sets, direction, gather/scatter policy, rebuilding after a change of the index set, at most one build per state; construction of index and remote-index sets from triples; project; which exchange each parallel operator, preconditioner and scalar product uses. Interface, communicator, index set and remote indices of dune-common are stand-ins.')
claim('F02', 'path-sensitive tables of factory creators (components, configuration and factories opaque) on LLVM IR, compared with the documented names',
      'Eight preconditioner names and multigrid with five smoothers for three operator kinds, ten iterative and five direct solver names, getSolverFromFactory, getPreconditionerFromFactory (wrapping by category) and what is taken from an operator. Name lookup itself is dune-common.')
claim('I01', 'value-range and dominance data flow of an LLVM pass pipeline discharging statements about file values (unreachability of violation markers in the optimised IR); path-sensitive decision tables for the words of the banner',
      'Readers and writers of sparse matrices and vectors (block shapes 1x1, 2x4, 4x2; real, integer and complex entries; all kinds and symmetries): no index, size or count of the file selects memory before it was compared with its bound, unreadable values are never used, every entry of the file is stored once with both indices shifted (and mirrored where the kind says so), the writers announce and write every entry once, and the banner words accepted and written have the meaning they name. Formatting and parsing of single numbers is that of the standard library; the index files of distributed matrices are not covered.')
claim('I02', 'effect-summary equivalence against specification functions (addresses and indices on the raw storage) on LLVM IR',
      'Iterators of the block vector, the variable-block vector, the rows and entries of the sparse matrix and the rows of the dense and scaled-identity matrices, constant and not: begin/end/beforeEnd/beforeBegin/find, steps, jumps, comparison, distance, copies, conversion and index, each of 278 functions equal to its specification for every position; look-up in rows by decision tables over the (opaque) ordered search. Entry iterators inside a dense row and windows are those of the block vector.')
