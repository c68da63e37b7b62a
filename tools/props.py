NA = {}
META = {}
prop("C01", "A solved QP comes with an optimal primal-dual pair",
 "Whenever initialising a convex QP (positive definite Hessian, or a bounded set of solutions) reports success, the primal and dual solution handed to the user satisfy the optimality (KKT) conditions of exactly the QP that was passed in, up to round-off, the reported objective is that of the returned point, and the solver state reads 'solved'. This holds for every option preset and every combination of algorithmic switches.",
 ["inputs","configurations"], "all small integer convex QPs (n<=4, m<=3, all bound kinds: free, one-sided, fixed, shifted) x 4 presets; 3456 option combinations x strictly convex base QPs",
 "The test-suite solves a few hundred fixed QPs, mostly with default options; optimality has to hold for every degenerate bound/constraint pattern and option combination.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/Options.cpp"],
 [("init / solveInitialQP / hotstart homotopy loop","src/QProblem.cpp"),("determineStepDirection, performStep, changeActiveSet","src/QProblem.cpp, src/QProblemB.cpp"),("TQ and Cholesky updates","src/QProblem.cpp: addConstraint, removeBound, ...")],
 observe=["getPrimalSolution","getDualSolution","getObjVal","isSolved"])
prop("C02", "Every solvable convex QP is solved",
 "Initialising a feasible QP with positive definite Hessian (any preset), or a feasible convex QP with a bounded solution set (default and reliable presets), terminates with success within a small multiple of the problem size in working set changes. No choice of algorithmic switches makes a strictly convex QP unsolvable.",
 ["inputs","configurations"], "as C01",
 "Cycling, spurious limits and lost pivots show up only on particular degenerate data / switch combinations that no sampled test hits.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("ramping, far bounds, flipping bounds, linear independence tests","src/QProblem.cpp"),("regularisation of singular Hessians","src/QProblemB.cpp: regulariseHessian, determineHessianType")],
 observe=["return value of init","nWSR"])
prop("C03", "Infeasible QPs are recognised, feasible ones are never called infeasible",
 "A QP whose bounds and constraints contradict each other is never reported as solved; if it is strictly convex or boxed (default/reliable presets) it is reported as infeasible through both return value and infeasibility query. A feasible QP of these classes is never reported infeasible.",
 ["inputs","configurations"], "as C01, verdict by exact integer Fourier-Motzkin elimination",
 "The tests contain a handful of infeasible problems; the verdict must be right on every boundary case (touching intervals, fixed variables, duplicated rows).",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("ensureLI / setInfeasibilityFlag","src/QProblem.cpp: addConstraint_ensureLI, addBound_ensureLI"),("bound consistency test","src/QProblemB.cpp: areBoundsConsistent")],
 observe=["isInfeasible","RET_INIT_FAILED_INFEASIBILITY"])
prop("C04", "Unboundedness is reported only, and always, when present",
 "A QP that is strictly convex or has a bounded solution set is never reported as unbounded. A convex QP that is unbounded along a free coordinate direction is reported as unbounded by the default and reliable presets, and no preset returns a moderate-size 'solution' for an unbounded QP of at most two variables.",
 ["inputs","configurations"], "as C01, verdict by exact integer Fourier-Motzkin elimination of the recession cone",
 "Unboundedness detection depends on the far-bound growth and ramping machinery, which the tests exercise on very few instances.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("far bound growth loop","src/QProblemB.cpp: hotstart; src/QProblem.cpp: hotstart"),("flipping bounds","src/Flipper.cpp")],
 observe=["isUnbounded","RET_INIT_FAILED_UNBOUNDEDNESS"])
MC = "explicit enumeration (bounded-exhaustive) of all inputs of a finite alphabet executed on the real solver, judged by an exact reference model"
for i in ("C01","C02","C03","C04"):
    META[i] = ("model_checking", MC, "Every QP of the stated integer alphabet is executed on the real code; the reference model is exact rational Fourier-Motzkin elimination plus an independent KKT residual. Nothing is claimed for data outside the alphabet.")
prop("C05", "Hotstarts give the answer of each QP itself, whatever was solved before",
 "For every sequence of parametric QPs (init, then hotstarts with new gradient, bounds and constraint limits, including limits that appear, disappear, coincide, or contradict each other), each step's verdict is that of its own QP and a reported solution is optimal for it, for all presets and single-switch variations. Completeness (a solvable QP is solved) is demanded for strictly convex QPs with the default/reliable presets; for simplified presets, semidefinite Hessians, or directly after a QP that was infeasible it is demanded only for QPs with a strictly feasible point, and without ramping zero-step cycling is tolerated.",
 ["histories","inputs","configurations"], "all sequences of length 3-4 over families of QP data (fixed H and A, n<=3, m<=3), x 14 option variants",
 "The state carried between QPs (working set, factorisations, shifted bounds, types) depends on the whole history; tests replay a few recorded MPC sequences.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("hotstart / solveRegularisedQP / solveQP","src/QProblem.cpp, src/QProblemB.cpp"),("updateActivitiesForHotstart, setupSubjectToType","src/QProblem.cpp")],
 state=[("working set, TQ and Cholesky factors","describe the last solved QP","QProblem members"),("lb,ub,lbA,ubA,g","data of the last auxiliary QP","QProblem members")],
 observe=["return value and status of hotstart","getPrimalSolution","getDualSolution"])
META["C05"] = ("model_checking", "explicit enumeration of all operation sequences up to a depth on the real solver, each step judged by an exact reference model", "Every sequence is executed on the real code. Bounds: length 3-4, families of 15-120 data vectors.")
prop("C06", "An interrupted solve can be resumed from any point",
 "If a solve is cut off by an iteration or CPU time limit at any point, the call says so with the limit code, claims neither a solution nor infeasibility/unboundedness, never exceeds the limit, and leaves the exact solution of an intermediate problem (as documented for the online active set strategy). Calling hotstart again, with the same or with other data, continues and ends with the correct verdict and an optimal solution; a solve that reports N changes also succeeds with a limit of N+1.",
 ["crash_points","histories","configurations"], "every cut point k=0..N+1 of every init and every hotstart, every constant limit 1..3 repeated until solved, every CPU time limit value under a virtual clock, over families of QPs (n<=3, m<=3) x 18 option variants",
 "Tests use one iteration limit; the state left behind differs at every cut point and only matters when the next call builds on it.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("homotopy loop and its limits","src/QProblem.cpp: solveQP; src/QProblemB.cpp: solveQP"),("regularisation and far bound outer loops","src/QProblem.cpp: solveRegularisedQP, hotstart"),("isCPUtimeLimitExceeded","src/QProblemB.cpp")],
 observe=["RET_MAX_NWSR_REACHED","nWSR and cputime on return","status"])
META["C06"] = ("model_checking", "explicit enumeration of all interruption points (iteration limit, virtual-clock time limit) of all call sequences up to a depth on the real solver", "gettimeofday is replaced by a virtual clock, so time limits are enumerated deterministically.")
prop("C18", "Working set bookkeeping matches its mathematical model",
 "After any sequence of set-up, activation, deactivation, flip, swap, shift, rotate, copy and re-initialisation operations, the working sets of bounds and constraints report exactly the statuses, types, counts, member order and positions that the sequence defines: every item is in exactly one of the two index lists. Illegal requests (index out of range, wrong offset, swapping members of different sets) return an error and change nothing, and copies are independent.",
 ["histories"], "all operation sequences from a fresh object (complete reachable state space, no depth bound) for n<=3 items with all type assignments, n=4,5 with uniform types; index lists of capacity <=6",
 "Reachable orders of the index lists number in the thousands and a bookkeeping slip shows up only many working set changes later.",
 ["src/Indexlist.cpp","src/SubjectTo.cpp","src/Bounds.cpp","src/Constraints.cpp"],
 [("sorted index with bisection","src/Indexlist.cpp"),("shift / rotate","src/Bounds.cpp, src/Constraints.cpp")],
 state=[("number, iSort, length","ordered members and their sorted view","Indexlist"),("status, type","per item","SubjectTo")],
 observe=["getStatus","getType","getNumberArray","getIndex","getNFR ..."])
META["C18"] = ("model_checking", "breadth-first search of the complete reachable state space of a reference model, every transition executed on the real objects (ASan/UBSan build) and compared", "No depth bound for the stated sizes. Exclusions: setting up an item twice with different status, moving items that are not in the source list, setting types in partially set-up lists (caller contract).")
prop("C11", "Copies and assignments of solver objects are equivalent and independent",
 "A solver object created by copy construction or overwritten by assignment (also over an object of another size and history) shows the same state as its source and gives bit-identical results for every continuation. Using or destroying either of the two never affects the other.",
 ["histories","configurations"], "all operation histories up to length 3-4 before the copy x all continuations of length 1-2 x 4 ways of copying x 10 QP worlds (convex, singular, nonconvex) x 4-8 option variants, for all three solver classes",
 "A member forgotten in a copy routine shows only for particular histories followed by particular continuations.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","src/Flipper.cpp"],
 [("copy, clear, operator=","src/QProblemB.cpp, src/QProblem.cpp"),("copy of saved factors","src/Flipper.cpp")],
 state=[("all data members of the solver classes","value semantics","include/qpOASES/QProblem.hpp")], observe=["every public query after every operation"])
META["C11"] = ("model_checking", "explicit enumeration of all operation histories and continuations on the real objects, bit-exact comparison with a reference execution", "The reference is a fresh object executing the concatenated history; no tolerance.")
prop("C12", "Reset and re-initialisation forget the past",
 "An object that is reset, or simply initialised again with new data or matrices, behaves bit-identically to a freshly constructed object with the same options, for every convex QP, whatever happened before (solved, infeasible, interrupted, rejected calls). After a reset it reports being uninitialised with all flags cleared.",
 ["histories","configurations"], "all histories up to length 3 (thorough 4) followed by reset or re-initialisation and every initialise+operation continuation, 7 worlds, 4-8 option variants, three solver classes",
 "State surviving a reset matters only after particular histories.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("reset","src/QProblemB.cpp, src/QProblem.cpp"),("init on an initialised object","src/QProblem.cpp: init")], observe=["every public query after every operation"])
META["C12"] = ("model_checking", "explicit enumeration of all operation histories on the real objects, bit-exact comparison with a fresh object", "Nonconvex QPs are excluded: their regularisation level adapts and is kept in the options.")
prop("C13", "Solver objects do not influence each other",
 "When several solver objects of any classes, sizes and options are used alternately, each of them gives bit-identically the results it gives when used alone, under every interleaving of their calls.",
 ["schedules","histories"], "all interleavings of all pairs of histories of length <= 2 (thorough 3) over all combinations of solver classes, 10 worlds",
 "Hidden shared state (static buffers, the global message handler, shared matrices) needs a particular interleaving to matter.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","src/MessageHandling.cpp"],
 [("global message handler, static data","src/MessageHandling.cpp"),("user matrices referenced by several objects","src/QProblemB.cpp: setH")], observe=["every public query after every operation"])
META["C13"] = ("model_checking", "explicit enumeration of all interleavings of operation histories of two real objects, bit-exact comparison with isolated execution", "Call-level interleavings in one thread; the library is not documented as thread-safe, so preemptive schedules are out of scope.")
prop("C20", "All matrix classes compute the same as a plain dense matrix",
 "Every operation of every matrix class (dense, symmetric dense, column- and row-wise sparse, symmetric sparse, and their duplicates) returns what the same operation on a plain dense matrix gives: products with any scalars, numbers of right-hand sides and leading dimensions, row/column/submatrix access through any index list, norms, diagonal queries and shifts. No operation writes outside its output, and a failed diagonal shift changes nothing.",
 ["inputs","histories"], "all matrices with 0/nonzero pattern up to 3x3 (all values in {0,1,-2} up to 2x2 and vectors), all ordered index lists, alpha in {1,-1,2.5,0}, beta in {0,1,-1,0.5}, 1-2 right-hand sides, padded and compact storage, original and duplicate",
 "The kernels have separate hand-written branches per scalar, list kind and storage; the tests use only those the solver happens to call.",
 ["src/Matrices.cpp","include/qpOASES/Matrices.hpp"],
 [("times / transTimes branches","src/Matrices.cpp"),("getSparseSubmatrix, getRow, getCol, bilinear, addToDiag, duplicate","src/Matrices.cpp")], observe=["Matrix public interface"])
META["C20"] = ("model_checking", "exhaustive enumeration of small matrices x operations x index lists on the real classes (ASan/UBSan build), judged by a dense reference", "Every sparsity pattern of the stated sizes; values are distinct per position so misplaced entries are visible.")
prop("C29", "Results depend only on the calls made, not on memory contents",
 "Executing the same sequence of calls again gives bit-identical results, whatever the previously used memory contains; no result ever depends on uninitialised data.",
 ["histories","configurations"], "all histories up to length 4 (thorough 5) x 5 fill patterns of heap and stack x 10 worlds x 6-8 option variants, three solver classes",
 "Uninitialised reads usually see zeros in a test process and stay invisible.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp"],
 [("constructors and lazily filled work arrays","src/QProblem.cpp")], observe=["every public query after every operation"])
META["C29"] = ("model_checking", "explicit enumeration of all operation histories and memory fill patterns on the real objects, bit-exact comparison", "operator new is replaced in the harness so every allocation is filled with the pattern.")
prop("C07", "The result does not depend on the initial guess",
 "Whatever primal point, dual point, working set, or (correct) Cholesky factor is given as a guess at initialisation, and whatever working set is guessed at a hotstart, alone or in any combination, a convex QP with positive definite Hessian gets the same verdict as without guess and a returned solution is optimal. Guesses are never modified.",
 ["inputs","configurations"], "all working set guesses, all primal points of a grid x 7 dual vectors, all working sets x points x duals, Cholesky factors, and all working set guesses at hotstarts, over families of QPs (n<=4, m<=3) x 4-14 option variants",
 "A guess decides the starting point of the homotopy; most wrong or inconsistent guesses are never tried by tests.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("obtainAuxiliaryWorkingSet, setupAuxiliaryQP*","src/QProblemB.cpp, src/QProblem.cpp"),("shallRefactorise","src/QProblem.cpp")], observe=["init with guesses","hotstart with guessed working set"])
META["C07"] = ("model_checking", "exhaustive enumeration of initial guesses on the real solver, every outcome judged by an exact reference model", "Semidefinite QPs: soundness of every claimed solution or verdict only, since a guessed working set may make the start impossible.")
prop("C09", "QP sequences with changing matrices are solved like independent QPs",
 "For sequences of QPs whose Hessian, constraint matrix and vectors all change from one QP to the next (given as dense arrays or sparse matrix objects, mixed with steps changing vectors only), every step returns the verdict of that QP on its own and a returned solution is optimal for the new data, also after infeasible QPs and if the new constraints make the previous working set linearly dependent.",
 ["histories","configurations"], "all sequences of length 2-4 over lists of up to 48 QPs differing in Hessian, constraint matrix and data (n<=3, m<=3) x dense/sparse/row-sparse/alternating storage x 4-14 option variants",
 "Dropped dependent constraints, types and Hessian kinds changing between QPs only matter for particular pairs of consecutive QPs.",
 ["src/SQProblem.cpp","src/QProblem.cpp"],
 [("setupNewAuxiliaryQP","src/SQProblem.cpp"),("setupAuxiliaryWorkingSet","src/QProblem.cpp")],
 state=[("working set and multipliers","carried over to the new matrices","SQProblem")], observe=["SQProblem::hotstart with matrices"])
META["C09"] = ("model_checking", "explicit enumeration of all sequences of QPs with changing matrices up to a depth on the real solver, each step judged by an exact reference model", "Histories end at an unbounded QP; semidefinite QPs may be given up but no wrong claim is accepted.")
prop("C21", "Built-in matrix kernels equal their mathematical definition",
 "The matrix product and Cholesky factorisation routines shipped for systems without a linear algebra library compute, in both precisions and for all shapes, storage strides, scalars and transposition, exactly what their standard interfaces define: the product formula, success if and only if the matrix is positive definite, the index and value of the failing pivot. They touch nothing but their output and never use the old output if its factor is zero.",
 ["inputs"], "all shapes up to 3x3x3, leading dimensions 0-2 larger than needed, 6 x 5 scalar pairs, 4 fill patterns, both precisions; all symmetric integer matrices of a 5-7 letter alphabet up to order 3 (thorough: 3-4 letters, order 4 and 5)",
 "The tests call the kernels only through the solver, with a few shapes and scalars.",
 ["src/BLASReplacement.cpp","src/LAPACKReplacement.cpp"],
 [("DGEMM/SGEMM branches per scalar and transposition","src/BLASReplacement.cpp"),("DPOTRF/SPOTRF","src/LAPACKReplacement.cpp")], observe=["output arrays","info"])
META["C21"] = ("model_checking", "exhaustive enumeration of shapes, strides, scalars and small integer matrices on the real routines (ASan/UBSan build), judged by exact integer arithmetic", "Options of the standard interfaces the solver never uses (TRANSB, lower factor) are not part of the replacement and not claimed.")
prop("C22", "Data files are read and written faithfully, and file errors never go unnoticed",
 "Numbers written to a file and read back are the same numbers; a missing, truncated or corrupted file, or a failing write at any byte, leads to an error code instead of silently used wrong data. Solver calls taking files behave bit-identically to the calls with arrays, a call refused because of a file leaves the object usable as if it had not been made, and the exported problem file describes the solver's data and working set.",
 ["fault_sequences","inputs","histories"], "all vectors of special values and shapes, every truncation point, replacement of every byte by 7 characters, a write failure at every byte; solver-level: all call sequences of length 3 on files vs arrays, each fault in each file at each call",
 "Faults at a particular byte, or in one of up to seven files of a call in the middle of a sequence, are never produced by tests.",
 ["src/Utils.cpp","src/QProblem.cpp","src/QProblemB.cpp","src/SQProblem.cpp","src/Matrices.cpp"],
 [("readFromFile / writeIntoFile","src/Utils.cpp"),("init and hotstart from files","src/QProblem.cpp, src/QProblemB.cpp, src/SQProblem.cpp"),("writeIntoMatFile","src/Utils.cpp, src/Matrices.cpp, src/QProblem.cpp")],
 observe=["return values","file contents","public queries after each call"])
META["C22"] = ("model_checking", "exhaustive enumeration of truncation, corruption and write-fault points and of call sequences with file faults on the real code (ASan/UBSan build), compared with an independent reader and with array-based executions", "Truncation inside the last number and tokens beginning with a number are accepted either way. Files live in a scratch directory created and removed by the check; write faults by RLIMIT_FSIZE.")
prop("C24", "Solution diagnosis agrees with the problem data",
 "The reported optimality violation of any point equals its stationarity, feasibility and complementarity residuals for the given data (missing or infinite limits, missing Hessian, missing constraints included), the simplified status agrees with the detailed verdict, and the computed sensitivity of the solution equals dense linear algebra on data and working set. Normalising constraints keeps the feasible set, and diagnosing a solver object never influences its later results.",
 ["inputs","histories"], "6 Hessian kinds x grids of points, multipliers, bound pairs incl. absent ones and working sets; all solver histories of length 3 (init, hotstarts, interrupted) over QP families x option variants; all small constraint matrices x bounds x norms",
 "Diagnosis code is used by the tests as their oracle, so errors in it hide rather than fail; boundary combinations of missing data are not tried.",
 ["src/SolutionAnalysis.cpp","src/Utils.cpp"],
 [("getKktViolation","src/Utils.cpp, src/SolutionAnalysis.cpp"),("getVarianceCovariance","src/SolutionAnalysis.cpp"),("getSimpleStatus, normaliseConstraints","src/Utils.cpp")], observe=["function results"])
META["C24"] = ("model_checking", "exhaustive enumeration of data grids and solver histories on the real functions, judged by an independent reference evaluation", "Tolerance 1e-9 relative for plain functions, 1e-6 against the solver's own shifted data.")
prop("C08", "The answer does not depend on how the QP is represented",
 "A QP gets the same verdict, optimal value and (if unique) solution whatever solver class is used, whether its matrices are given as arrays or as dense, padded, column- or row-wise sparse matrix objects, with or without stored zeros, with or without a correct hint on the kind of Hessian, with infinite limits given as numbers or left out, and with an identity or zero Hessian given or left out, both at initialisation and at a following hotstart.",
 ["inputs","configurations"], "all pairs (init, hotstart) of QPs from 13 families (n<=3, m<=3) x all admissible combinations of 3 classes, 7 Hessian and 7 constraint matrix storages, hint, NULL limits x 4-14 option variants",
 "The tests use one representation per problem; each combination takes other branches of the linear algebra.",
 ["src/Matrices.cpp","src/QProblem.cpp","src/QProblemB.cpp","src/SQProblem.cpp"],
 [("determineHessianType, setupQPdata","src/QProblemB.cpp, src/QProblem.cpp"),("matrix classes","src/Matrices.cpp"),("branches on Hessian type","src/QProblem.cpp: determineStepDirection, setupInitialCholesky, getObjVal")],
 observe=["verdict, solution, objective of init and hotstart"])
META["C08"] = ("model_checking", "exhaustive enumeration of representations of every QP of finite families on the real solver, judged by the exact reference model and compared with the plain representation", "Singular sparse Hessians need a stored diagonal (documented regularisation limit); unbounded QPs are left to C04; tolerance 1e-5 relative.")
prop("C26", "The Octave and MATLAB interfaces do what the C++ classes do",
 "Every sequence of one-shot, initialisation, hotstart, matrix change, equality-constrained and cleanup calls from the host language, with dense or sparse matrices, several columns of vectors, any options, auxiliary inputs and numbers of outputs, returns exactly what the corresponding calls of the C++ classes return, and instances do not influence each other. Wrong numbers, types or sizes of arguments, invalid values and unknown or unsuitable handles raise an error, without reading or writing foreign memory and without any effect on existing instances. Arguments are never modified, and sequences that are cleaned up leave no memory behind.",
 ["histories","configurations"], "all sequences of 3 calls (MATLAB variant 2, thorough 4; every third choice for the third call) over 27 calls x 12 initial calls on two live instances; one-shot calls over 6 problems x call forms x matrix forms x empty limits x 1-3 columns x options x auxiliary inputs x outputs; every argument x 14 kinds of bad value x 8 call forms; every number of arguments and outputs; every option and every auxiliary input x values and types; both interface variants inside a real Octave interpreter",
 "The tests call the Octave interface on valid dense data of one example; whole call forms, sparse data, errors and outputs are never exercised, and memory errors stay invisible.",
 ["interfaces/octave/qpOASES.cpp","interfaces/octave/qpOASES_sequence.cpp","interfaces/octave/qpOASES_octave_utils.cpp","interfaces/matlab/qpOASES.cpp","interfaces/matlab/qpOASES_sequence.cpp","interfaces/matlab/qpOASES_matlab_utils.cpp","interfaces/octave/qpOASES_options.m","interfaces/octave/qpOASES_auxInput.m"],
 [("mexFunction of the one-shot and the sequence interface","interfaces/{octave,matlab}/qpOASES.cpp, qpOASES_sequence.cpp"),("setup of options, matrices, inputs and outputs","interfaces/{octave,matlab}/qpOASES_*_utils.cpp")],
 state=[("table of instances","handle created by i, used by h, m, e, removed by c","g_instances")], observe=["every output of every call, raised errors, arguments after the call, allocated bytes"])
META["C26"] = ("model_checking", "explicit enumeration of call sequences on the real mex code (ASan/UBSan, both variants) inside an embedded Octave interpreter, every call replayed on C++ objects and compared bit by bit", "The MATLAB variant is compiled against Octave's implementation of the mex interface. Ambiguous argument counts (documented call forms overlapping) and instances left behind by failing initial calls are not judged. Default values of options are compared within 5 per cent.")
prop("C27", "Benchmark sequences are read and solved exactly like direct solver calls",
 "Solving a sequence of QPs from arrays or from a benchmark directory gives the return code, iteration and time statistics of the same calls made directly on a solver object, and the residuals of the solutions obtained. Unusable files or dimensions always give an error, unrequested files are not needed, the data read are those of the files, and no memory is leaked or used uninitialised.",
 ["inputs","histories","fault_sequences"], "all sequences of length <=3 over 3-4 QPs in 5 worlds (bounds only, general, linear programs, infeasible members) x dense/sparse x hot/cold x iteration limits x time limits under a virtual clock x 4 entry points; all 7 faults of all 11 files x all requested outputs",
 "The tests read a few intact benchmark directories; error paths and limits inside a sequence are never executed.",
 ["src/OQPinterface.cpp"],
 [("readOqpDimensions, readOqpData","src/OQPinterface.cpp"),("solveOqpBenchmark, runOqpBenchmark","src/OQPinterface.cpp")], observe=["return codes, statistics, data"])
META["C27"] = ("model_checking", "exhaustive enumeration of QP sequences, limits and file faults on the real interface (ASan/UBSan build), compared with direct solver calls", "Residuals of QPs stopped by a limit before any point was available are only required to be independent of memory contents.")
prop("C15", "Inputs are never modified and vectors are copied",
 "No call modifies any data passed to it: vectors, matrices (including unused padding), guessed working sets, options. Matrices are referenced as documented, but every vector or guess may be overwritten or freed as soon as the call returns without influencing any later result.",
 ["histories","configurations"], "all call sequences of length 3 (thorough 4) over up to 25 calls starting with one of 9 kinds of initialisation, 9 worlds (convex, singular, nonconvex, LP), 2-4 option variants, three solver classes, every step executed twice: inputs poisoned and freed at once vs inputs retained",
 "Tests keep their inputs alive and never look at them again.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","src/Matrices.cpp"],
 [("setupQPdata, setG, setLB ...","src/QProblemB.cpp, src/QProblem.cpp"),("regulariseHessian on a user matrix","src/QProblemB.cpp"),("setA, setH (shallow copies)","include/qpOASES/QProblem.ipp")], observe=["input memory after each call","every public query"])
META["C15"] = ("model_checking", "explicit enumeration of all call sequences up to a depth on the real objects (ASan/UBSan build), inputs compared bit by bit, results compared bit by bit with the retained-input execution", "Matrix data are kept alive while referenced (documented shallow copy).")
prop("C16", "A rejected call leaves the solver as if it had not been made",
 "Calls with missing data or outputs, inconsistent or incomplete guesses, unreadable files, or on objects without dimensions return an error and never crash. Afterwards the object shows the same state and gives bit-identical results as if the call had not been made (an initialisation attempt may discard the previous problem like a reset).",
 ["histories","inputs"], "all histories of length <=2 (thorough 3) over 8 calls x 32 kinds of invalid call x all continuations of length 2, 9 worlds x 2-4 option variants x three solver classes; all calls on objects without dimension created in 4 ways; all non-positive dimensions",
 "Error paths after partial changes are executed by no test, and their effect shows only in a later call.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","src/SolutionAnalysis.cpp"],
 [("consistency checks of init and hotstart","src/QProblem.cpp, src/QProblemB.cpp"),("setupNewAuxiliaryQP","src/SQProblem.cpp"),("getters","src/QProblemB.cpp")], observe=["return codes","every public query after each call"])
META["C16"] = ("model_checking", "explicit enumeration of histories, invalid calls and continuations on the real objects (ASan/UBSan build), bit-exact comparison with a twin object that never saw the call", "Guess objects larger than the problem are accepted by design and not part of the alphabet.")
prop("C17", "No sequence of calls breaks memory safety",
 "Whatever sequence of public calls is made on a solver object (initialise, hotstart, interrupt, reset, change options, copy, assign, query, analyse, in any order and also before any initialisation), no memory outside the caller's arrays and the object is touched, no arithmetic is undefined, every number returned is finite, and all memory is released.",
 ["histories","configurations"], "all call sequences of length <=3 (thorough 4) over 22-25 calls, every class, 9 worlds, 4 option variants, on the sanitizer build with every argument in an exact-size heap block freed right after the call",
 "Tests execute typical sequences without sanitizers; work arrays of wrong length or stale pointers show up only for particular orders of calls and dimensions.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","src/SolutionAnalysis.cpp","src/Matrices.cpp","src/Flipper.cpp","src/Bounds.cpp","src/Constraints.cpp"],
 [("allocation, copy and clear","src/QProblem.cpp, src/QProblemB.cpp"),("index lists used to address work arrays","src/Indexlist.cpp"),("T, Q and R updates","src/QProblem.cpp: addConstraint, addBound, removeConstraint, removeBound")], observe=["sanitizer reports","returned numbers","allocated bytes"])
META["C17"] = ("model_checking", "explicit enumeration of all call sequences up to a depth on the real objects under AddressSanitizer/UBSan with exact-size argument blocks and a balance of allocated memory", "Bounds: length 3 (thorough 4), n<=3, m<=3.")
prop("C25", "The plain C interface does what the C++ classes do",
 "For every history of set-up, initialisation, hotstart and clean-up calls of the C interface, in any interleaving of its three solver objects, the return code, status, iteration count, solution and objective are those of the same calls on C++ objects; calls without a set-up or with bad sizes are refused without effect. Every option of the C struct reaches the solver, presets equal the C++ presets, and all constants and sizes of the C header are those of the library.",
 ["histories","configurations"], "all histories of length 4 (thorough 5) over 23 calls (sizes, hints, solvable, infeasible, unbounded, interrupted, missing data), all interleavings of 3 (thorough 4) calls on three objects, every option member changed alone on each preset, every set-up argument in a small box",
 "The C interface has static solver objects, so results depend on the history of calls; the shipped tests run each C example once.",
 ["interfaces/c/qpOASES_wrapper.cpp","interfaces/c/qpOASES_wrapper.h"],
 [("static solver objects and their lifetime","interfaces/c/qpOASES_wrapper.cpp"),("option struct conversion","interfaces/c/qpOASES_wrapper.cpp: qpOASES_Options_copy")], observe=["return codes, output arrays"])
META["C25"] = ("model_checking", "explicit enumeration of call histories of the C interface (compiled from C) in lock-step with C++ objects as reference model, bit-exact comparison on the ASan/UBSan build", "Bounds: history length 4, interleavings of length 3.")
prop("C31", "Printing never influences the solver and tells the truth",
 "Whatever print level is set, at the beginning or on the way, every result, count and working set is bit-identical to that of a silent run; a silent run prints nothing and no output contains anything but properly initialised text. The working set changes reported by the iteration logs, replayed on the initial working set, are legal, lead to the final working set, and agree line by line with silent runs stopped there.",
 ["histories","configurations"], "all call sequences of length 3 (thorough 4) over up to 12 calls x 9 worlds x four classes (including the Schur complement class) x 2-9 option variants x 11 print level schedules; tabular, medium and debug logs of all pairs (init, hotstart) of QPs of 7 families x all 18 option variants, each line compared with a silent twin stopped after the same number of changes",
 "Debug and tabular output is executed by no test; its side effects need particular states (interrupted, no Hessian, not initialised).",
 ["src/QProblem.cpp","src/QProblemB.cpp","src/SQProblem.cpp","src/MessageHandling.cpp","src/Utils.cpp"],
 [("printIteration and debug output in the iteration loop","src/QProblem.cpp, src/QProblemB.cpp: solveQP, performStep, determineStepDirection"),("myPrintf","src/Utils.cpp")],
 state=[("tabular output record","index removed and added per iteration","QProblemB::tabularOutput")], observe=["printed bytes, every public query"])
META["C31"] = ("model_checking", "explicit enumeration of call sequences x print level schedules on the real objects (ASan/UBSan, pattern-initialised locals), bit-exact comparison with the silent run; printed logs are replayed as a trace on a working set model and compared line by line with silent twins interrupted there", "Logs of the Schur class are not replayed for zero Hessians. Final working sets are not compared across the phases of a regularised solve, between which equalities may be activated.")
prop("C23", "Option sets stay consistent",
 "Checking options for consistency keeps every valid value, replaces each invalid one by a valid one, reports exactly whether something was changed, and is idempotent. Each preset is the same whatever the options were before, copies and assignments carry every option, the printed form shows every option's value, and a solver object reports and uses exactly the adjusted options it was given.",
 ["configurations"], "every option x every value of its alphabet (invalid, boundary, valid), alone and in all pairs, from each of 4 presets",
 "There are 33 options; tests use the presets only.",
 ["src/Options.cpp","include/qpOASES/Options.hpp"],
 [("ensureConsistency","src/Options.cpp"),("setTo*, copy, print","src/Options.cpp"),("setOptions","include/qpOASES/QProblemB.ipp")], observe=["option values, printed text"])
META["C23"] = ("model_checking", "exhaustive enumeration of single and paired option values over all presets on the real code, judged by an explicit reference of valid ranges", "NaN option values excluded; the priorities for dropping constraints are not part of the printed form.")
prop("C32", "Messages appear exactly as requested",
 "For every sequence of messages and changes of visibility, output file and error level, a message is printed if and only if its kind and itself are visible and an output file is set, with its kind, text and correct nesting; return codes pass through unchanged, and undefined codes are reported as such. Every return code has a message that states its meaning, and the simplified status and its printed form agree with the verdict.",
 ["histories","inputs"], "all sequences of length 4 (thorough 5) over 39 operations; all codes from -10 to beyond the last x kind x visibility x additional text; all values of the elementary helper functions on a special value alphabet",
 "Tests never look at printed messages; nesting depends on the history of earlier messages.",
 ["src/MessageHandling.cpp","include/qpOASES/MessageHandling.ipp","src/Utils.cpp","include/qpOASES/Utils.ipp"],
 [("throwMessage","src/MessageHandling.cpp"),("visibility and error count","include/qpOASES/MessageHandling.ipp"),("getSimpleStatus, convert...ToString","src/Utils.cpp")],
 state=[("error count","nesting level of the next message","MessageHandling::errorCount")], observe=["printed bytes, return codes"])
META["C32"] = ("model_checking", "explicit-state exploration of all operation sequences of the real message handler up to a depth, compared step by step with a reference model (ASan/UBSan build)", "The global handler is explored; message functions always print to the global handler's file.")
prop("C14", "The reported working set is consistent at every stop",
 "Whenever a call returns (solved, infeasible, unbounded, interrupted, failed, reset), the working set, index lists, statuses and all counts agree with each other, and the active constraints are linearly independent. After success every active item sits at its stated finite limit with a multiplier of the right sign, and inactive items satisfy their limits with zero multiplier.",
 ["histories","configurations"], "all histories of length 3 (thorough 4) over 13-15 calls x 9 worlds (convex, singular, nonconvex, LP) x three classes x 8 (thorough 14) option variants",
 "Warm starts rest on the working set left by the previous call, in particular by an interrupted or failed one; tests look at it only after success.",
 ["src/QProblem.cpp","src/QProblemB.cpp","src/Bounds.cpp","src/Constraints.cpp","src/Indexlist.cpp"],
 [("addConstraint, removeConstraint, addBound, removeBound, flipping","src/QProblem.cpp, src/QProblemB.cpp"),("getWorkingSet, getWorkingSetBounds, getWorkingSetConstraints","src/QProblem.cpp"),("linear independence test","src/QProblem.cpp: addConstraint_ensureLI, addBound_ensureLI")],
 state=[("working set","index lists and statuses of bounds and constraints","Bounds, Constraints")], observe=["working set queries, counts, copies of bounds and constraints, solution"])
META["C14"] = ("model_checking", "explicit enumeration of call histories on the real objects; invariant evaluated at every stop, with exact integer rank of the active rows", "After an unbounded QP the point may be arbitrarily large (C04), so activity and sign tests are skipped until the next initialisation.")
prop("C30", "Equality-constrained subproblems of the working set are solved exactly",
 "At every stop of an initialised solver, the equality-constrained QPs given by its current working set are solved for all right-hand sides passed in: stationarity, active limits, zero multipliers elsewhere. Missing or negative arguments and calls without a factorisation are refused, limits that no active item needs may be left out, nothing behind the outputs is written, and the solver behaves afterwards as if it had not been asked.",
 ["histories","inputs"], "all histories of length <=2 (thorough 3) over 13-15 calls x 9 worlds x two classes x 4 (thorough 14) option variants x 0-3 right-hand sides x 2 sets x 3 (thorough 11) patterns of left out arguments",
 "No test calls this function; it depends on the factorisation left by an arbitrary history.",
 ["src/QProblem.cpp","include/qpOASES/QProblem.hpp"],
 [("solveCurrentEQP","src/QProblem.cpp"),("determineStepDirection","src/QProblem.cpp")], observe=["outputs, return code, every public query after two more calls"])
META["C30"] = ("model_checking", "explicit enumeration of call histories and right-hand sides on the real objects (ASan/UBSan build), each solution substituted into the optimality system, twin object comparison", "Stationarity is judged for convex Hessians only.")
prop("C28", "User-defined constraint products are honoured and their failures reported",
 "Installing a user routine for constraint products changes no verdict and no solution, whatever calls follow; it is only called with valid constraint numbers and finite vectors, and not any more once it is taken away. If any single evaluation fails, the call reports an error and neither success nor an infeasible QP, nothing leaks, and later initialisations behave as on a new object.",
 ["histories","fault_sequences"], "all histories of length 3 (thorough 4) over 10-12 calls x 7 worlds with constraints x two classes x 5 (thorough 14) option variants x 2 fill patterns of fresh memory; every one of the first 12 (thorough 24) evaluations failing x 5 continuations; pairs from 3 QP families",
 "No test installs such a routine; its failure at a particular evaluation inside the homotopy can only be reached by fault injection.",
 ["src/QProblem.cpp","include/qpOASES/ConstraintProduct.hpp"],
 [("performStep","src/QProblem.cpp"),("setupAuxiliaryQP (limits that become finite)","src/QProblem.cpp"),("setConstraintProduct","src/QProblem.cpp")], observe=["return code, solution, calls made to the routine"])
META["C28"] = ("model_checking", "explicit enumeration of call histories and of every failing evaluation (fault injection) on the real objects under ASan/UBSan, compared with the solver's own products and the exact reference model", "Not available in the sparse Schur-complement class (documented).")
prop("C10", "The sparse Schur complement class solves the same QPs equally well",
 "For every call history, storage form of the matrices and limit on the size of the Schur complement, the sparse Schur complement class reports success exactly with an optimal point, infeasibility exactly for infeasible QPs, and makes no claim when interrupted. If any single factorisation fails, the call reports an error or still gives a right answer, and later initialisations behave as on a new object.",
 ["histories","inputs","fault_sequences"], "all histories of length 3 (thorough 4) over 13 calls x 9 worlds x 3 storage forms x 2 (thorough 4) update limits x 2 (thorough 14) option variants; pairs from 7 QP families; each of the first 12 (thorough 24) calls to the sparse solver failing; sparse solver on all symmetric matrices of order <=3 (thorough 4) with entries -2..2",
 "The repository's tests need a licensed sparse solver, so none of them runs this class here; its correctness depends on the history of Schur complement updates, resets and refactorisations.",
 ["src/SQProblemSchur.cpp","src/SparseSolver.cpp","include/qpOASES/SQProblemSchur.hpp"],
 [("addToSchurComplement, deleteFromSchurComplement, resetSchurComplement","src/SQProblemSchur.cpp"),("stepCalcRhs, stepCalcReorder, undoDeleteFromSchurComplement","src/SQProblemSchur.cpp"),("Ma57SparseSolver","src/SparseSolver.cpp")],
 state=[("Schur complement factorisation","base KKT factorisation, Q/R factors and signs of the Schur complement","SQProblemSchur")], observe=["return code, status, solution, multipliers, working set"])
META["C10"] = ("model_checking", "explicit enumeration of call histories, QP pairs and single faults of the sparse solver on the real class (ASan/UBSan build) linked with stand-ins for the licensed MA57 routines, judged by the exact reference model; stand-ins checked exhaustively on small matrices", "The real MA57 is not available here; the stand-in is a dense Bunch-Parlett factorisation. Singular Hessians: only claims (solved, infeasible) are judged, a refusal is accepted.")
