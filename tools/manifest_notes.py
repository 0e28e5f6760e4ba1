HOOKS = None
PB = ("The specification Problem.tla is model checked exhaustively with small constants; random walks of it "
      "(seeded) become call scripts for the real Problem, whose every reply is validated by TLC against the "
      "specification. Trusted: TLC, the driver's recording, and the logging stand-in. Scripts are a sample of histories. ")
NOTE["C01"] = {"note": PB}
NOTE["C02"] = {"note": PB + "Destruction is observed through instrumented objects."}
NOTE["C03"] = {"note": PB + "Cost functions, losses and manifolds are integer formulas shared with the specification, so results are compared exactly (the one irrational correction to 1e-9)."}
TR = ("TrustRegion.tla (control of the trust region minimizer) is model checked exhaustively with small constants; "
      "solves of seeded random problems (all linear solvers, bounds, manifolds, injected evaluation failures) are recorded "
      "from outside (cost functions, EvaluationCallback, IterationCallback, user memory) and TLC validates every event "
      "against the specification, recomputing steps, radii and qualities in double arithmetic (a Java operator override). "
      "Trusted: TLC, the override, Problem::Evaluate at the visited points (decided by C03). The problems are a sample. ")
for _p in ("C04", "C05", "C06", "C07", "C08"):
    NOTE[_p] = {"note": TR}
NOTE["C23"] = {"note": "StepEvaluator.tla is model checked exhaustively; seeded walks of it drive the real TrustRegionStepEvaluator "
  "(integer and decimal cost sequences, windows 0..6) and every reply is validated; whole non-monotonic solves are validated "
  "against TrustRegionTrace.tla. Histories are a sample."}
NOTE["C17"] = {"note": "Orderings.tla states the definitions (ordered partition, independent set, forest, linkage, reordering) and is model checked on all "
  "small graphs; seeded walks of OrderedGroupsGen and seeded graphs and problems drive the real containers, graph algorithms and reorderings, "
  "and every result is validated against the definitions. Graphs are a sample (random and structured)."}
NOTE["C18"] = {"note": "TinySolver.tla is model checked; every functor call, status and summary of seeded solves (13 functor shapes, static and dynamic sizes, "
  "autodiff and cost function adapters, reused solvers) is validated by TLC, recomputing scaling, steps, radii and termination in double arithmetic. "
  "Functors that report failure are not covered: handling them is a documented TODO of tiny_solver.h. Problems are a sample."}
LS_ = ("LineSearch.tla (the Armijo and Wolfe searches as a machine over the possible configurations) is model checked with small constants; "
      "seeded runs of GradientProblemSolver and of Solve with LINE_SEARCH, on smooth, scripted, failing and non-finite functions, are recorded from "
      "outside and TLC validates every evaluation, callback and summary, recomputing directions, step ranges and interpolants in double arithmetic. "
      "Runs whose direction is numerically ill determined (about one in seven) are followed only up to that point. Functions are a sample. ")
for _p in ("C09", "C22"):
    NOTE[_p] = {"note": LS_}
TH = ("The real threading layer runs under a cooperative scheduler (std::mutex, condition_variable, atomic, thread are replaced by stand-ins at "
      "compile time), with schedules chosen at random (uniform, PCT) and enumerated up to a number of preemptions for small scenarios; TLC validates "
      "every recorded history. Every access to memory is also watched for data races and use after free. Sequentially consistent atomics are assumed. ")
NOTE["C10"] = {"note": "ParallelLoop.tla states the promise; ParallelInvoke.tla, the algorithm, is model checked to refine it without deadlock. " + TH}
NOTE["C11"] = {"note": "WorkQueue.tla is model checked; histories of the queue are checked for linearizability against it, those of the pool and the token provider against automata. " + TH}
NOTE["C16"] = {"note": "Options.tla states the documented constraints of every option as a set of named clauses; its design model checks all single and double "
  "deviations from the defaults (no clause is vacuous, clauses of other algorithms play no part). TLC enumerates deviations (all singles, a seeded share of the pairs, "
  "every linear solver with every preconditioner and further settings, random mixtures); the real IsValid and Solve run on each and TLC validates verdict and outcome. "
  "min_line_search_step_contraction = 1 is left open (documentation and code differ). Option sets with more than a few deviations are a sample; this build has no CUDA, LAPACK or SuiteSparse."}
NOTE["C13"] = {"note": "Matrices.tla states the containers and their operations; its laws are checked exhaustively on small block structures. Seeded histories of the real "
  "containers, views, inner products, random access matrices, kernels and utilities (integer values, address sanitizer) are replayed by TLC, exactly. "
  "Histories and structures are a sample; triplets with duplicate entries are not covered."}
NOTE["C20"] = {"note": "Manifolds.tla states the laws and the composition; its design model is checked exhaustively on integer points of small nested terms. "
  "Walks of ManifoldsGen.tla build terms (every factory, value and pointer factors, static and dynamic sizes, failing factors); the real objects run with "
  "address sanitizer and canaries, and TLC validates every output, exactly for linear factors and recomputed in double arithmetic for the others. "
  "Terms and points are a sample; sphere and line points of norm near 1e-8 or less are not covered (the Householder test is absolute there)."}
NOTE["C15"] = {"note": "Covariance.tla: storage and lookup of the requested blocks is model checked for every request on three blocks; the Jacobian (through "
  "manifolds, scaled losses, constant and unused blocks) and its rank are computed exactly from integer data. Histories of real Covariance objects (both algorithms, "
  "threads, failing evaluations, repeated Compute, address sanitizer) are validated by TLC; values are compared in doubles where the smallest kept eigenvalue is above 1e-7 "
  "of the largest, otherwise only the structure is. SuiteSparse is not in this build; pointers unknown to the Problem are not covered."}
NOTE["C19"] = {"note": "Derivative.tla: dual numbers over any arithmetic, model checked against formal derivatives of polynomials; StridePasses.tla: the passes of the dynamic "
  "wrapper, for every mask of wanted Jacobians. Random straight-line programs (ring operations on integers: exact; elementary functions of jet.h: nearness; documented corner "
  "cases of pow, fmax, fmin, fdim and comparisons) run through AutoDiffCostFunction, DynamicAutoDiffCostFunction of several strides, nests of cost-function-to-functor "
  "adaptors, ConditionedCostFunction, NormalPrior, AutoDiffFirstOrderFunction, AutoDiffManifold and TinySolverAutoDiffFunction, with guarded outputs under address sanitizer; "
  "TLC evaluates each program. Bessel functions and jets of jets are not covered."}
NOTE["C12"] = {"note": "LinearSetup.tla: how orderings are judged, honoured or replaced, which solver and preconditioner run, the order of blocks and rows; model checked "
  "for every problem of three blocks and every ordering (ReorderProgram refines it). Systems given to every linear solver (types, preconditioners, threads, refinement, mixed "
  "precision, reuse) and whole solves of one problem under several configurations are validated by TLC: every step against the normal equations at its starting point. "
  "Solutions are compared where the system is well conditioned, residuals of the normal equations always. SuiteSparse, LAPACK, CUDA, Accelerate are not in this build; iterative solvers run to convergence."}
NA = {
 "C30": "Closeness of floating point conversions for every rotation is a question of numerical analysis; a TLA+ specification has no real arithmetic to decide it with.",
 "C31": "Truncation error of finite differences is a question of numerical analysis outside what a TLA+ specification expresses.",
}
