------------------------------- MODULE Options -------------------------------
(* Which option sets Solver::Options::IsValid and                             *)
(* GradientProblemSolver::Options::IsValid accept, from the documentation of  *)
(* the options (include/ceres/solver.h, docs/source/nnls_solving.rst), and    *)
(* what Solve does with an accepted and with a refused one.                   *)
(*                                                                            *)
(* An option set is a record: integers, booleans, doubles (see Dbl.tla) and   *)
(* enumerators by name.  Broken(api, o) is the set of documented constraints  *)
(* that o violates; o is valid when there is none.                            *)
EXTENDS Dbl, FiniteSets
\* what this build of Ceres has
CONSTANTS DenseLibraries, SparseLibraries, NestedDissection
Zero == DInt(0)
One == DInt(1)
\* comparisons with NaN are false, so that NaN violates every constraint
NonNeg(x) == DLe(Zero, x)
Pos(x) == DLt(Zero, x)

When(c, name) == IF c THEN {name} ELSE {}
Need(ok, name) == IF ok THEN {} ELSE {name}

Common(o) ==
       Need(o.max_num_iterations >= 0, "max_num_iterations")
  \cup Need(NonNeg(o.max_solver_time_in_seconds), "max_solver_time_in_seconds")
  \cup Need(NonNeg(o.function_tolerance), "function_tolerance")
  \cup Need(NonNeg(o.gradient_tolerance), "gradient_tolerance")
  \cup Need(NonNeg(o.parameter_tolerance), "parameter_tolerance")

FullCommon(o) ==
       Need(o.num_threads > 0, "num_threads")
  \cup (IF ~o.check_gradients THEN {} ELSE
             Need(Pos(o.gradient_check_relative_precision), "gradient_check_relative_precision")
        \cup Need(Pos(o.gradient_check_numeric_derivative_relative_step_size), "gradient_check_step"))

Iterative(o) == o.linear_solver_type \in {"CGNR", "ITERATIVE_SCHUR"}
\* who needs a sparse Cholesky factorization
NeedsSparse(o) ==
  \/ o.linear_solver_type \in {"SPARSE_NORMAL_CHOLESKY", "SPARSE_SCHUR"}
  \/ o.linear_solver_type = "ITERATIVE_SCHUR" /\ o.preconditioner_type \in {"CLUSTER_JACOBI", "CLUSTER_TRIDIAGONAL"}
  \/ o.linear_solver_type = "CGNR" /\ o.preconditioner_type = "SUBSET"
NeedsDense(o) == o.linear_solver_type \in {"DENSE_NORMAL_CHOLESKY", "DENSE_QR", "DENSE_SCHUR"}

LinearSolver(o) ==
       When(NeedsDense(o) /\ o.dense_linear_algebra_library_type \notin DenseLibraries, "dense library")
  \cup When(NeedsSparse(o) /\ o.sparse_linear_algebra_library_type \notin SparseLibraries, "sparse library")
  \cup When(NeedsSparse(o) /\ o.linear_solver_ordering_type = "NESDIS" /\ ~NestedDissection, "nested dissection")
  \cup When(o.linear_solver_type = "CGNR" /\ o.sparse_linear_algebra_library_type = "CUDA_SPARSE"
            /\ "CUDA_SPARSE" \notin SparseLibraries, "CGNR on CUDA")
  \* dynamic sparsity: with SPARSE_NORMAL_CHOLESKY; the dense solvers have no sparsity to speak of
  \cup When(o.dynamic_sparsity /\ o.linear_solver_type \in {"DENSE_SCHUR", "SPARSE_SCHUR", "ITERATIVE_SCHUR", "CGNR"},
            "dynamic sparsity")
  \cup When(o.use_mixed_precision_solves /\ o.linear_solver_type \in {"DENSE_QR", "ITERATIVE_SCHUR", "CGNR"},
            "mixed precision")
  \cup When(o.linear_solver_type = "CGNR" /\ o.preconditioner_type \notin {"IDENTITY", "JACOBI", "SUBSET"},
            "preconditioner of CGNR")
  \cup When(o.linear_solver_type = "CGNR" /\ o.preconditioner_type = "SUBSET" /\ o.subset = "none", "empty subset")
  \cup (IF o.linear_solver_type # "ITERATIVE_SCHUR" THEN {} ELSE
             When(o.preconditioner_type = "SUBSET", "preconditioner of ITERATIVE_SCHUR")
        \cup When(o.use_explicit_schur_complement /\ o.preconditioner_type # "SCHUR_JACOBI", "explicit: preconditioner")
        \cup When(o.use_explicit_schur_complement /\ o.use_spse_initialization, "explicit: initialization")
        \cup (IF o.use_spse_initialization \/ o.preconditioner_type = "SCHUR_POWER_SERIES_EXPANSION"
              THEN Need(o.max_num_spse_iterations >= 1, "max_num_spse_iterations")
                   \cup Need(NonNeg(o.spse_tolerance), "spse_tolerance")
              ELSE {}))

TrustRegion(o) ==
       Need(Pos(o.initial_trust_region_radius), "initial_trust_region_radius")
  \cup Need(Pos(o.min_trust_region_radius), "min_trust_region_radius")
  \cup Need(Pos(o.max_trust_region_radius), "max_trust_region_radius")
  \cup Need(DLe(o.min_trust_region_radius, o.initial_trust_region_radius), "min_trust_region_radius <= initial")
  \cup Need(DLe(o.initial_trust_region_radius, o.max_trust_region_radius), "initial <= max_trust_region_radius")
  \cup Need(DLe(o.min_trust_region_radius, o.max_trust_region_radius), "min <= max_trust_region_radius")
  \cup Need(NonNeg(o.min_relative_decrease), "min_relative_decrease")
  \cup Need(Pos(o.min_lm_diagonal), "min_lm_diagonal")
  \cup Need(DLe(o.min_lm_diagonal, o.max_lm_diagonal), "min_lm_diagonal <= max_lm_diagonal")
  \cup Need(o.max_num_consecutive_invalid_steps >= 0, "max_num_consecutive_invalid_steps")
  \cup Need(Pos(o.eta), "eta")
  \cup Need(o.min_linear_solver_iterations >= 0, "min_linear_solver_iterations")
  \cup Need(o.min_linear_solver_iterations <= o.max_linear_solver_iterations, "max_linear_solver_iterations")
  \cup When(o.use_inner_iterations /\ ~NonNeg(o.inner_iteration_tolerance), "inner_iteration_tolerance")
  \cup When(o.use_nonmonotonic_steps /\ o.max_consecutive_nonmonotonic_steps <= 0, "max_consecutive_nonmonotonic_steps")
  \cup When(o.trust_region_strategy_type = "DOGLEG" /\ Iterative(o), "dogleg")
  \cup When(/\ o.trust_region_minimizer_iterations_to_dump
            /\ o.trust_region_problem_dump_format_type # "CONSOLE"
            /\ o.trust_region_problem_dump_directory = "", "dump directory")
  \cup LinearSolver(o)

\* min_line_search_step_contraction = 1 is left open: the documentation says
\* "by definition < 1", the code takes the line search's clamp [max, 1].
LineSearch(minimizer, o) ==
       Need(o.max_lbfgs_rank > 0, "max_lbfgs_rank")
  \cup Need(Pos(o.min_line_search_step_size), "min_line_search_step_size")
  \cup Need(Pos(o.max_line_search_step_contraction), "max_line_search_step_contraction")
  \cup Need(DLt(o.max_line_search_step_contraction, o.min_line_search_step_contraction), "contractions")
  \cup Need(DLe(o.min_line_search_step_contraction, One), "min_line_search_step_contraction")
  \cup Need(DLt(o.max_line_search_step_contraction, One), "max_line_search_step_contraction < 1")
  \cup Need(o.max_num_line_search_step_size_iterations >= IF minimizer = "TRUST_REGION" THEN 0 ELSE 1,
            "max_num_line_search_step_size_iterations")
  \cup Need(Pos(o.line_search_sufficient_function_decrease), "line_search_sufficient_function_decrease")
  \cup Need(DLt(o.line_search_sufficient_function_decrease, o.line_search_sufficient_curvature_decrease), "Wolfe constants")
  \cup Need(DLt(o.line_search_sufficient_curvature_decrease, One), "line_search_sufficient_curvature_decrease")
  \cup Need(DLt(One, o.max_line_search_step_expansion), "max_line_search_step_expansion")
  \cup When(o.line_search_direction_type \in {"BFGS", "LBFGS"} /\ o.line_search_type # "WOLFE", "BFGS needs WOLFE")

Broken(api, o) ==
  IF api = "gradient" THEN Common(o) \cup LineSearch("LINE_SEARCH", o)
  ELSE Common(o) \cup FullCommon(o) \cup LineSearch(o.minimizer_type, o)
       \cup (IF o.minimizer_type = "TRUST_REGION" THEN TrustRegion(o) ELSE {})
Open(o) == DEq(o.min_line_search_step_contraction, One)
Valid(api, o) == Broken(api, o) = {}

(* ------------------------------------------------------------ the domain *)
\* the values each field is tried with; the first group of every list of
\* numbers are the boundaries of its constraint
Tolerances == <<"-1e-300", "-1", "0", "nan", "inf", "1e-3">>
Positive == <<"0", "-0.0", "-1", "4.9e-324", "nan", "inf">>
F(n, v) == [f |-> n, v |-> v]
SharedFields == <<
  F("line_search_direction_type", <<"STEEPEST_DESCENT", "NONLINEAR_CONJUGATE_GRADIENT", "BFGS">>),
  F("line_search_type", <<"ARMIJO">>),
  F("nonlinear_conjugate_gradient_type", <<"POLAK_RIBIERE", "HESTENES_STIEFEL">>),
  F("max_lbfgs_rank", <<"0", "-1", "1">>),
  F("use_approximate_eigenvalue_bfgs_scaling", <<"T">>),
  F("line_search_interpolation_type", <<"BISECTION", "QUADRATIC">>),
  F("min_line_search_step_size", Positive),
  F("line_search_sufficient_function_decrease", Positive \o <<"0.9", "0.8999999", "1">>),
  F("max_line_search_step_contraction", Positive \o <<"0.6", "0.5999999", "1", "0.9999999">>),
  F("min_line_search_step_contraction", Positive \o <<"1", "1.0000001", "0.001", "0.0010001">>),
  F("max_num_line_search_step_size_iterations", <<"-1", "0", "1">>),
  F("max_num_line_search_direction_restarts", <<"-1", "0">>),
  F("line_search_sufficient_curvature_decrease", Positive \o <<"1", "0.9999999", "0.0001", "0.00010001">>),
  F("max_line_search_step_expansion", <<"1", "1.0000001", "0", "-2", "nan", "inf">>),
  F("max_num_iterations", <<"-1", "0", "1">>),
  F("max_solver_time_in_seconds", Tolerances),
  F("function_tolerance", Tolerances),
  F("gradient_tolerance", Tolerances),
  F("parameter_tolerance", Tolerances) >>
FullFields == SharedFields \o <<
  F("minimizer_type", <<"LINE_SEARCH">>),
  F("trust_region_strategy_type", <<"DOGLEG">>),
  F("dogleg_type", <<"SUBSPACE_DOGLEG">>),
  F("use_nonmonotonic_steps", <<"T">>),
  F("max_consecutive_nonmonotonic_steps", <<"0", "-1", "1">>),
  F("num_threads", <<"0", "-1", "2", "300">>),
  F("initial_trust_region_radius", Positive \o <<"1e16", "1.1e16", "1e-32", "0.9e-32">>),
  F("max_trust_region_radius", Positive \o <<"1e4", "9999", "1e-33">>),
  F("min_trust_region_radius", Positive \o <<"1e4", "10001", "1e17">>),
  F("min_relative_decrease", Tolerances),
  F("min_lm_diagonal", Positive \o <<"1e32", "2e32">>),
  F("max_lm_diagonal", Positive \o <<"1e-6", "0.9e-6">>),
  F("max_num_consecutive_invalid_steps", <<"-1", "0">>),
  F("linear_solver_type", <<"DENSE_NORMAL_CHOLESKY", "DENSE_QR", "SPARSE_NORMAL_CHOLESKY", "DENSE_SCHUR", "SPARSE_SCHUR", "ITERATIVE_SCHUR", "CGNR">>),
  F("preconditioner_type", <<"IDENTITY", "SCHUR_JACOBI", "SCHUR_POWER_SERIES_EXPANSION", "CLUSTER_JACOBI", "CLUSTER_TRIDIAGONAL", "SUBSET">>),
  F("visibility_clustering_type", <<"SINGLE_LINKAGE">>),
  F("dense_linear_algebra_library_type", <<"LAPACK", "CUDA">>),
  F("sparse_linear_algebra_library_type", <<"SUITE_SPARSE", "ACCELERATE_SPARSE", "CUDA_SPARSE", "NO_SPARSE">>),
  F("linear_solver_ordering_type", <<"NESDIS">>),
  F("use_explicit_schur_complement", <<"T">>),
  F("dynamic_sparsity", <<"T">>),
  F("use_mixed_precision_solves", <<"T">>),
  F("max_num_refinement_iterations", <<"3", "-1">>),
  F("min_linear_solver_iterations", <<"-1", "500", "501">>),
  F("max_linear_solver_iterations", <<"-1", "0", "1">>),
  F("max_num_spse_iterations", <<"0", "-1", "1">>),
  F("use_spse_initialization", <<"T">>),
  F("spse_tolerance", Tolerances),
  F("eta", Positive),
  F("jacobi_scaling", <<"F">>),
  F("use_inner_iterations", <<"T">>),
  F("inner_iteration_tolerance", Tolerances),
  F("check_gradients", <<"T">>),
  F("gradient_check_relative_precision", Positive),
  F("gradient_check_numeric_derivative_relative_step_size", Positive),
  F("update_state_every_iteration", <<"T">>),
  F("trust_region_minimizer_iterations_to_dump", <<"T">>),
  F("trust_region_problem_dump_directory", <<"-">>),
  F("trust_region_problem_dump_format_type", <<"CONSOLE">>),
  F("subset", <<"some", "all">>) >>
FieldsOf(api) == IF api = "gradient" THEN SharedFields ELSE FullFields
=============================================================================
