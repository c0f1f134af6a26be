"""Metadata of the properties: mkmeta.py turns it into properties.jsonl and MANIFEST.json."""

REAL = "real mode: doubles are exact reals, rounding, overflow and NaN are outside the claim"
FPUF = ("fpuf mode: doubles are arbitrary values with exact IEEE comparisons, arithmetic is an "
        "uninterpreted function of its operands")
TRUST = ("Eigen, libstdc++ and the harness are executed symbolically with the code; clang -O2's LLVM IR, the "
         "engine's instruction semantics and z3 are trusted")
STUB = ("the four component classes of the algorithm are replaced by stubs that may return any value; "
        "their own behaviour is decided by C03-C08")
A1 = "fbstab/fbstab_algorithm-impl.h"
DD, MD = "fbstab/components/dense_data.cc", "fbstab/components/mpc_data.cc"
DC, RC = "fbstab/components/dense_cholesky_solver.cc", "fbstab/components/riccati_linear_solver.cc"
FV, FR, FF = ("fbstab/components/full_variable.cc", "fbstab/components/full_residual.cc",
              "fbstab/components/full_feasibility.cc")
FD, FM = "fbstab/fbstab_dense.h", "fbstab/fbstab_mpc.h"
MS = "tools/matrix_sequence.h"

META = {}


def P(pid, title, statement, over, text, why, files, mech, bounds, assume, **k):
    META[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                     bounds=bounds, assumptions=assume, **k)


P("C01", "Dense problem data implements exact operator algebra",
  "For a dense problem (H,f,G,h,A,b), every product the problem data offers computes y <- a*M*x + b*y for M = H, A, "
  "A', G, G' and every addition computes y <- a*w + y for w = f, h, b, for all scalings and vectors, leaving the "
  "operand and the data unchanged. With b = 0 the result does not depend on the previous contents of y. The forcing "
  "norm is the Euclidean norm of (f,h,b).",
  ["inputs"], "every real matrix, vector and pair of scalings, at every shape within the bound",
  "The component tests evaluate one fixed 2-variable problem with scalings from a short list.",
  [DD, "fbstab/components/dense_data.h"], [("dense products", DD), ("forcing norm", "fbstab/components/dense_data.h")],
  "(nz,nl,nv) in (1,0,1),(2,1,2),(3,2,3),(4,0,2),(5,3,9),(6,4,5),(2,7,9),(9,3,17),(3,5,1); thorough also (16,8,33),"
  "(11,19,5)", [REAL, TRUST])

P("C02", "MPC problem data implements exact operator algebra",
  "For an optimal control problem, every product and addition the problem data offers equals the one with the "
  "explicit stacked matrices H, G, A and vectors f, h, b of the condensed problem statement (including x(0) = x0 and "
  "the constraint sign convention), for all scalings and vectors, leaving the operand and the data unchanged. With "
  "b = 0 the result does not depend on the previous contents of y. The forcing norm is the Euclidean norm of (f,h,b).",
  ["inputs"], "every real stage matrix and vector, operand and pair of scalings, at every shape within the bound",
  "The component tests use one double-integrator problem with scalings from a short list; general scalings and "
  "unequal nx, nu, nc are not sampled.",
  [MD, "fbstab/components/mpc_data.h"], [("stage-wise products", MD)],
  "(N,nx,nu,nc) in (1,1,1,1),(2,2,1,1),(1,1,2,2),(3,2,2,2),(5,3,2,4),(2,4,3,5),(3,1,4,1),(1,2,1,7),(8,1,1,1); thorough "
  "also (12,3,2,4),(4,6,5,9)", [REAL, TRUST])

P("C03", "The dense Newton step solves the regularised Newton system",
  "For a positive semidefinite H, any constraint matrices, any point and proximal centre, any regularisation sigma > 0 "
  "and any right-hand side, the dense linear solver reports success and returns (dz,dl,dv) satisfying every row of the "
  "Newton system of the regularised penalised Fischer-Burmeister equations. It also returns dy = b - A*dz, leaves the "
  "right-hand side unchanged, and can be reused for several right-hand sides and points.",
  ["inputs"], "every point, proximal centre, right-hand side, sigma, alpha and (small shapes) every problem matrix",
  "The component test solves one 2-variable system at one point; the gradient branches and singular H are not sampled.",
  [DC, "fbstab/components/dense_cholesky_solver.h"], [("augmented-system factorisation and back substitution", DC)],
  "fully symbolic data at (nz,nl,nv) in (1,0,1),(1,1,1),(1,0,2); concrete matrices with symbolic right-hand sides up "
  "to (8,4,10) (thorough (16,8,20)), fewer and more constraints than variables included; reuse: one solver object over a "
  "second right-hand side, another point, a larger and a smaller sigma, other alpha and each data part changed in place; points: arbitrary, six Pythagorean points in all combinations, a fixed mix, the "
  "origin", [REAL, TRUST, "concrete-matrix jobs factor in floating point and bound the residual of each row by 1e-6 "
             "for right-hand sides in [-1,1]"])

P("C04", "The MPC Newton step solves the regularised Newton system",
  "For an optimal control problem with positive semidefinite stage Hessians, any point, proximal centre, "
  "regularisation sigma > 0 and right-hand side, the Riccati-based linear solver reports success and returns (dz,dl,dv) "
  "satisfying every row of the Newton system of the regularised penalised Fischer-Burmeister equations. It also "
  "returns dy = b - A*dz, leaves the right-hand side unchanged, and can be reused for several right-hand sides and points.",
  ["inputs"], "every right-hand side at each shape, with every combination of concrete gradient points; sigma in "
  "three magnitudes", "The component test solves one fixed system at one point.",
  [RC, "fbstab/components/riccati_linear_solver.h"], [("Riccati recursion", RC)],
  "concrete stage matrices (positive definite or singular), symbolic right-hand sides and offsets; exact rationals at "
  "N <= 2, floating-point factorisation up to (N,nx,nu,nc) = (5,4,3,5), more inputs than states up to (3,2,4,3),(1,3,5,9), "
  "horizons to 10; reuse of one solver object as in C03",
  [REAL, TRUST, "floating-point jobs bound the residual of each row by 1e-6 for right-hand sides in [-1,1]"])

P("C05", "A full Newton step removes the linearised residual",
  "For either problem class, evaluating the subproblem residual at any iterate, negating it, solving for the step and "
  "adding the whole step to the iterate yields a point whose subproblem stationarity and equality residuals are exactly "
  "zero. The complementarity part satisfies its linearisation, and the constraint margin of the new iterate is again "
  "y = b - A*z.",
  ["inputs"], "every iterate, proximal centre, problem vector and (dense, small) problem matrix",
  "No test composes residual, linear solver and iterate update; each component test uses one point.",
  [DC, RC, FR, FV, A1], [("residual, Newton step and update composed as in the inner loop", A1)],
  "dense up to (nz,nl,nv) = (8,4,10), MPC up to (N,nx,nu,nc) = (5,4,3,5)",
  [REAL, TRUST, "large shapes factor in floating point and compare up to 1e-6 for inputs in [-1,1]"])

P("C06", "Iterate arithmetic preserves the constraint margin",
  "After any sequence of adding a multiple of one iterate to another, copying, filling with a constant and projecting "
  "the inequality duals, an iterate holds exactly the primal-dual vectors those operations define and its constraint "
  "margin equals b - A*z for its own problem (a copy belongs to the problem of its source). Operations change only the iterate they are applied to. The norm of an iterate is the "
  "Euclidean norm of its primal and dual parts.",
  ["inputs", "histories"], "every sequence of operations on two iterates up to the bound, with every real vector, "
  "scalar and problem", "The tests apply one operation to one fixed iterate.",
  [FV, "fbstab/components/full_variable.h"], [("incremental margin update", FV)],
  "up to 3 operations at (1,1,1) dense, 2 at (2,1,2) dense and (1,1,1,1) MPC, 1 at (2,2,1,2) MPC", [REAL, TRUST])

P("C07", "Residuals are zero exactly at solutions",
  "The natural, penalised natural and proximal subproblem residuals equal their definitions for every iterate, "
  "including the norms and the merit value reported with them. The first two vanish exactly when the iterate satisfies "
  "the KKT conditions (stationarity, feasibility, nonnegative duals, complementarity).",
  ["inputs"], "every problem, iterate, proximal centre, sigma > 0 and 0 < alpha < 1 at the bounded shapes",
  "The tests compare residuals at a single iterate of a single problem.",
  [FR, "fbstab/components/full_residual.h"], [("residual evaluation", FR)],
  "definitions and KKT equivalence fully symbolic at dense (1,0,1),(1,1,1),(2,1,2) and MPC (1,1,1,1); definitions with "
  "concrete matrices to dense (5,3,4),(4,6,4), MPC (2,2,1,1),(3,1,2,1),(1,2,1,3); norms and merit to (9,4,11),(3,0,17)",
  [REAL, TRUST])

P("C08", "Infeasibility verdicts are issued exactly on certificates",
  "The feasibility check reports dual infeasibility exactly when the candidate z is a direction with Az <= 0, Gz = 0 "
  "and Hz = 0 up to the tolerance relative to its size and f'z < 0. It reports primal infeasibility exactly when the "
  "candidate duals satisfy A'v + G'l = 0 and v >= 0 up to the relative tolerance and b'v + h'l < 0. It reports both "
  "when both hold and feasible otherwise.",
  ["inputs"], "every problem, candidate and tolerance at the bounded shapes",
  "The tests check three hand-made candidates; the conditions are never tested one violated at a time.",
  [FF, "fbstab/components/full_feasibility.h"], [("certificate conditions", FF)],
  "fully symbolic dense (1,0,1),(1,1,1),(2,1,2); concrete certificates with each single entry of the problem or the "
  "candidate changed by an arbitrary amount at dense to (5,3,7),(4,0,9), MPC (1,1,1,2,..) to (2,1,4,3),(3,1,2,1)", [REAL, TRUST])

P("C09", "The exit report is truthful",
  "Whatever the components compute, the reported residual is the norm of the optimality residual of the point handed "
  "back (for infeasible exits, of the last iterate), the initial residual is that of the initial guess, and the "
  "iteration counts are the numbers of Newton and proximal iterations performed, the solve time the time spent in the "
  "call. SUCCESS is reported only if that "
  "residual meets the absolute-plus-relative tolerance or the last proximal step was no longer than the stall tolerance, "
  "and an infeasibility flag only if the feasibility check produced it and checking is enabled.",
  ["inputs", "histories"], "every sequence of component results and every option value within the iteration limits",
  "Tests look at the flag and solution of a handful of problems; limits and failures in the middle are not reached.",
  [A1], [("outer loop exits", A1)],
  "up to 3 proximal, 4 Newton, 2 inner and 2 line-search iterations, on a new object and after an earlier solve; "
  "the real solvers on one problem of each kind (solvable, infeasible) at dense to (4,2,7), MPC to (2,2,1,1),(2,1,3,2), "
  "(4,1,1,1), and for every cost vector at dense (2,1,2), MPC (1,1,1,1)", [FPUF, TRUST, STUB])

P("C10", "Every solve terminates within its iteration limits",
  "A solve always returns, never throws unless the linear solver reports failure, and never exceeds the configured "
  "numbers of proximal, Newton, inner and line-search iterations. It stops as soon as the convergence or infeasibility "
  "criteria hold and continues otherwise until a limit is reached, reporting the limit with its own flag.",
  ["inputs", "histories"], "every sequence of component results and every option value within the iteration limits",
  "Tests never reach a limit; whether a limit is enforced depends on histories tests do not produce.",
  [A1], [("loop bounds and stopping tests", A1)],
  "up to 3 proximal, 4 Newton, 2 inner and 2 line-search iterations", [FPUF, TRUST, STUB])

P("C11", "The point handed back is the one the exit flag describes",
  "On SUCCESS the caller receives the last accepted iterate, on a Newton-iteration limit the better of the last two "
  "proximal iterates, on a proximal-iteration limit the last iterate, and on an infeasibility exit the difference of "
  "the last two iterates that certifies it. All four parts (z, l, v and y) come from that same point.",
  ["inputs", "histories"], "every sequence of component results and every option value within the iteration limits",
  "Tests compare solutions of a few solvable problems and never inspect the point at other exits.",
  [A1], [("writing the result back", A1)],
  "up to 3 proximal, 4 Newton, 2 inner and 2 line-search iterations", [FPUF, TRUST, STUB])

P("C12", "Options are validated to the nearest admissible value",
  "After any options are supplied, every option in force lies in its documented admissible range and the ranges are "
  "mutually consistent; an option that was already admissible is kept exactly and an inadmissible one becomes the "
  "nearest admissible value. Supplying options never throws, every option takes effect, and the default and reliable "
  "presets are admissible as they are.",
  ["inputs", "configurations"], "every non-NaN value of every option", "No test supplies an out-of-range option.",
  [A1, "fbstab/fbstab_algorithm.h"], [("option validation", A1)],
  "none on values: every double except NaN, every int; effect: each option alone through the solver classes against "
  "the algorithm built from the components, at dense (1,0,1),(2,1,2), MPC (1,1,1,1), a few iterations", [FPUF, TRUST])

P("C13", "Inconsistently sized problems and guesses are rejected untouched",
  "Creating a solver throws a runtime error exactly when its sizes are not admissible, and solving throws a runtime "
  "error whenever any matrix, vector, sequence or part of the initial guess has a size inconsistent with the others or "
  "with the solver. The caller's guess is then unchanged, and correctly sized problems are never rejected.",
  ["inputs", "configurations"], "every choice of one wrong dimension and every small solver size",
  "Tests check a few of the more than thirty size conditions.",
  [FD, FM, "fbstab/fbstab_dense.cc", "fbstab/fbstab_mpc.cc", MD, "fbstab/components/dense_data.h"],
  [("input validation", MD)], "deviations of -1, +1 (and one larger) in each dimension around base shapes",
  [FPUF, TRUST])

P("C14", "Matrix sequences address, copy and reject correctly",
  "Element (i,j) of the k-th matrix of a sequence is stored at position k*rows*cols + j*rows + i of its data for every "
  "admissible index, an index outside the sequence throws out_of_range, and inadmissible shapes or null data throw a "
  "runtime error. Copying or assigning an owning sequence yields independent storage with equal contents, copying a "
  "mapped sequence yields a view of the same memory.",
  ["inputs", "histories"], "every index and shape within the bound (the index is a symbolic integer)",
  "Tests read two sequences at fixed in-range indices.",
  [MS], [("index arithmetic and copy semantics", MS)], "lengths 0-4, rows and columns 1-3, every 32-bit index",
  [FPUF, TRUST])

P("C15", "A solve depends only on its inputs and options",
  "Solving the same problem from the same guess with the same options gives bitwise the same report and solution on a "
  "fresh solver and on one that has solved any other problems before, whatever their outcome and options.",
  ["histories", "inputs"], "every history from a family of previous solves, followed by a symbolic problem",
  "Tests use a new solver object for each problem.",
  [A1, DC, RC, FR, FV, FF], [("workspace is re-initialised by each solve", A1)],
  "histories of up to 3 solves with every outcome (success, limit, infeasible, exception, rejected input) and three "
  "option sets, problems elsewhere or in the same memory, freed memory handed out again at the same address; then one "
  "solve with symbolic vectors at dense to (3,1,4), MPC to (2,3,2,2),(1,2,4,3); any component behaviour with stubs "
  "(3 proximal iterations before and after)",
  [FPUF, TRUST])

P("C16", "Owning and reference inputs are equivalent and only the guess is written",
  "Solving through mapped (reference) problem data or guesses gives bitwise the same report and solution as through "
  "owning ones. A solve writes nothing to the problem data, and writes the solution into the caller's guess memory only.",
  ["inputs"], "every problem vector and guess at the bounded shapes, for every mixture of input kinds",
  "Tests compare the two kinds on one problem up to a tolerance.",
  [FD, FM, MS, "fbstab/fbstab_dense.cc", "fbstab/fbstab_mpc.cc"], [("mapped inputs", FD)],
  "symbolic vectors for one proximal iteration, concrete ones for up to 3 at dense to (3,0,4),(3,1,3),(1,2,3), MPC to "
  "(2,2,2,2),(1,2,4,7),(4,1,1,1)",
  [FPUF, TRUST, "bitwise means for memory of equal alignment: Eigen's vectorised sums start at an aligned address"])

P("C17", "Each Newton step is accepted by the documented line search",
  "The step length tried first is one and each rejection multiplies it by the backtracking factor. A step is accepted "
  "as soon as the merit at the trial point is at most the reference value minus twice the step length times the "
  "sufficient-decrease factor times the current merit, where the reference is the largest of the last five merit "
  "values of the current subproblem (or just the current one when monotone), and after the maximum number of tries "
  "the shortened step is taken.",
  ["inputs", "histories"], "every sequence of merit values, every admissible option value",
  "Tests see only the final solution; a wrong reference value or reduction still converges on them.",
  [A1], [("line search and merit buffer", A1)],
  "up to 9 Newton steps and 20 backtracking steps", [REAL, TRUST, STUB])

P("C18", "Display settings change only what is printed",
  "The verbosity setting never changes the solution, the report or the sequence of computations; nothing is printed "
  "when display is off. What is printed at each level is the residuals, iteration counts, limits and exit status of "
  "the moment it describes, and no print overruns its buffer.",
  ["inputs", "configurations"], "every verbosity level, every sequence of component results",
  "Tests run with display off or do not look at output.",
  [A1, "tools/output_stream.h"], [("printing helpers", A1)],
  "up to 3 proximal, 3 Newton, 2 inner and 2 line-search iterations; numbers compared to the printed precision", [REAL, TRUST, STUB])

P("C19", "A warm start at a solution returns it at once",
  "If the optimality residual of the initial guess already meets the tolerance, the solve returns SUCCESS with zero "
  "iterations, the guess unchanged and y = b - A*z; the y part of the guess is never used.",
  ["inputs"], "every problem and guess with this property", "Tests start from zero or from random guesses.",
  [A1, FV], [("initialisation", A1)], "dense up to (3,2,4),(4,2,1) and MPC (1,1,1,1),(1,1,3,1),(2,2,1,1),(1,2,1,2),(3,1,1,1) "
  "with symbolic solutions; any component behaviour with stubs", [REAL, FPUF, TRUST])

P("C20", "Solves are memory safe and never read undefined data",
  "For every consistently sized problem (including problems without equality constraints), guess and option values, a "
  "solve stays inside its memory, never lets a value that was not initialised influence its result, and releases all "
  "memory it allocated, also when it throws.",
  ["inputs"], "every problem vector and guess at the bounded shapes; the y part of the guess is undefined",
  "Tests run without sanitizers and on shapes where misuse stays invisible.",
  [A1, DC, RC, FR, FV, FF, DD, MD], [("workspaces sized in constructors", RC)],
  "symbolic vectors for one iteration at small shapes, concrete problems of five kinds for up to 8 proximal iterations "
  "at dense to (6,3,2),(3,0,9),(1,0,12),(1,2,3), MPC to (4,1,2,3),(1,2,4,7),(6,1,1,1),(1,1,1,6)",
  [FPUF, TRUST])

P("C21", "Solver instances share no state",
  "Two solver objects used alternately, or interleaved with each other's construction and option changes, behave exactly "
  "as if each were alone. No solve writes memory that outlives it other than the solver object and the guess.",
  ["histories", "schedules"], "every store executed on every path of the bounded solves",
  "Tests run one solver at a time.", [A1, RC, DC, "fbstab/fbstab_dense.cc", "fbstab/fbstab_mpc.cc"],
  [("all state lives in the solver object", A1)],
  "two solvers, up to 2 interleaved solves each; every store of every explored path", [FPUF, TRUST,
   "thread schedules are covered only through the absence of shared mutable state"])

P("C22", "Component preconditions are enforced by exceptions",
  "Components given null pointers, non-positive or mismatched sizes, a non-positive regularisation, or used before "
  "problem data is linked throw a runtime error and leave their arguments unmodified; valid calls never throw.",
  ["inputs", "configurations"], "every single violated precondition at small sizes, every sigma <= 0",
  "Tests check few of the documented conditions.",
  [DC, RC, FR, FV, FF, MD, A1, "tools/utilities.h"], [("documented checks", RC)],
  "each documented precondition, sizes deviating by one", [FPUF, TRUST])

P("C23", "Subproblems are solved to a decreasing accuracy schedule",
  "Each proximal subproblem is solved around the current iterate with the configured regularisation until its residual "
  "is at most the subproblem tolerance and the optimality residual has decreased, or until its residual is at most the "
  "minimum tolerance, or until a limit. The tolerance starts at the initial residual clamped to the configured range "
  "and is multiplied by the reduction factor before each subproblem, clamped between the minimum tolerance and the "
  "current residual.",
  ["inputs", "histories"], "every sequence of residual values, every admissible option value",
  "Tests only see that the final solution is accurate.",
  [A1], [("outer loop tolerance update, inner loop stopping test", A1)],
  "up to 3 proximal, 4 Newton, 4 inner iterations", [REAL, TRUST, STUB])

P("C24", "The sparse factorisation wrapper solves quasidefinite systems",
  "For every symmetric quasidefinite matrix given by its upper triangle in compressed columns, the QDLDL wrapper is "
  "constructed from the sparsity pattern, factors any matrix with that pattern and then replaces any right-hand side by "
  "the exact solution of the system. It stays inside the memory it allocated, reads no undefined data, leaves the matrix "
  "unchanged, and can be refactored with new values, reused for further right-hand sides and copied.",
  ["inputs", "histories"], "every right-hand side at each pattern and size within the bound; every diagonal and "
  "coupling value at the smallest", "Its test needs an external library, is not part of the CMake build and solves one system.",
  ["tools/qdldl/qdldl_wrapper.h", "tools/qdldl/qdldl_types.h"], [("workspace sizes and calls", "tools/qdldl/qdldl_wrapper.h")],
  "n to 10, six sparsity patterns; symbolic diagonal and coupling to n = 4, exact rationals to n = 5",
  [REAL, TRUST, "the QDLDL library is not in the repository or the sandbox: an implementation of its documented interface "
   "written for the checks (harness/qdldl) stands in for it"])

NA = {}


def N(pid, title, statement, over, text, why, files, mech, reason):
    META[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                     bounds="", assumptions=[])
    NA[pid] = reason


N("C30", "The solver converges on every solvable convex problem",
  "For every convex problem with a solution and default options, the solver returns SUCCESS with a point meeting the "
  "tolerance.", ["inputs"], "every convex problem", "Tests solve a handful of problems.", [A1], [("algorithm", A1)],
  "needs unbounded iteration counts of a nonlinear floating-point iteration; no bound within reach of a solver says "
  "anything about it. Its ingredients are C03-C11, C17 and C23.")
N("C31", "Newton systems are solved accurately in floating point",
  "For every well-conditioned problem the relative error of a Newton step is of the order of machine precision times "
  "the condition number.", ["inputs"], "every floating-point problem",
  "Tests compare one system up to 1e-8.", [DC, RC], [("factorisations", DC)],
  "symbolic floating-point matrix factorisation over all values is beyond available SMT solvers, even for 2x2 "
  "matrices; C03 and C04 decide exact algebra and bounded error for concrete matrices.")
N("C32", "Concurrent solves on separate solver objects do not interfere",
  "Solves running in different threads on different solver objects behave as if run one after another.",
  ["schedules"], "every interleaving of two threads", "Tests are single threaded.", [A1], [("no globals", A1)],
  "the engine is sequential; C21 shows for every explored path that no store leaves the solver object and guess, which "
  "implies it, but no thread schedule is explored.")
