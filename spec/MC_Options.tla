----------------------------- MODULE MC_Options ------------------------------
(* Exhaustive check of Options.tla over every one and two deviations from the *)
(* defaults: the life of an option set (asked about, then solved with), the   *)
(* constraints that do not concern the chosen algorithm play no part, every   *)
(* constraint can be the only one violated (none is vacuous).                 *)
EXTENDS Options, TLC
CONSTANT Api
Default ==
  [line_search_direction_type |-> "LBFGS", line_search_type |-> "WOLFE",
   nonlinear_conjugate_gradient_type |-> "FLETCHER_REEVES", max_lbfgs_rank |-> 20,
   use_approximate_eigenvalue_bfgs_scaling |-> FALSE, line_search_interpolation_type |-> "CUBIC",
   min_line_search_step_size |-> DLit("1e-9"), line_search_sufficient_function_decrease |-> DLit("1e-4"),
   max_line_search_step_contraction |-> DLit("1e-3"), min_line_search_step_contraction |-> DLit("0.6"),
   max_num_line_search_step_size_iterations |-> 20, max_num_line_search_direction_restarts |-> 5,
   line_search_sufficient_curvature_decrease |-> DLit("0.9"), max_line_search_step_expansion |-> DLit("10"),
   max_num_iterations |-> 50, max_solver_time_in_seconds |-> DLit("1e9"), function_tolerance |-> DLit("1e-6"),
   gradient_tolerance |-> DLit("1e-10"), parameter_tolerance |-> DLit("1e-8"),
   minimizer_type |-> "TRUST_REGION", trust_region_strategy_type |-> "LEVENBERG_MARQUARDT",
   dogleg_type |-> "TRADITIONAL_DOGLEG", use_nonmonotonic_steps |-> FALSE,
   max_consecutive_nonmonotonic_steps |-> 5, num_threads |-> 1,
   initial_trust_region_radius |-> DLit("1e4"), max_trust_region_radius |-> DLit("1e16"),
   min_trust_region_radius |-> DLit("1e-32"), min_relative_decrease |-> DLit("1e-3"),
   min_lm_diagonal |-> DLit("1e-6"), max_lm_diagonal |-> DLit("1e32"),
   max_num_consecutive_invalid_steps |-> 5, linear_solver_type |-> "SPARSE_NORMAL_CHOLESKY",
   preconditioner_type |-> "JACOBI", visibility_clustering_type |-> "CANONICAL_VIEWS",
   dense_linear_algebra_library_type |-> "EIGEN", sparse_linear_algebra_library_type |-> "EIGEN_SPARSE",
   linear_solver_ordering_type |-> "AMD", use_explicit_schur_complement |-> FALSE,
   dynamic_sparsity |-> FALSE, use_mixed_precision_solves |-> FALSE, max_num_refinement_iterations |-> 0,
   min_linear_solver_iterations |-> 0, max_linear_solver_iterations |-> 500,
   max_num_spse_iterations |-> 5, use_spse_initialization |-> FALSE, spse_tolerance |-> DLit("0.1"),
   eta |-> DLit("0.1"), jacobi_scaling |-> TRUE, use_inner_iterations |-> FALSE,
   inner_iteration_tolerance |-> DLit("1e-3"), check_gradients |-> FALSE,
   gradient_check_relative_precision |-> DLit("1e-8"),
   gradient_check_numeric_derivative_relative_step_size |-> DLit("1e-6"),
   update_state_every_iteration |-> FALSE, trust_region_minimizer_iterations_to_dump |-> FALSE,
   trust_region_problem_dump_directory |-> "/tmp", trust_region_problem_dump_format_type |-> "TEXTFILE",
   subset |-> "none"]
Ints == {"max_lbfgs_rank", "max_num_line_search_step_size_iterations", "max_num_line_search_direction_restarts",
         "max_num_iterations", "max_consecutive_nonmonotonic_steps", "num_threads",
         "max_num_consecutive_invalid_steps", "max_num_refinement_iterations", "min_linear_solver_iterations",
         "max_linear_solver_iterations", "max_num_spse_iterations"}
Words == {"line_search_direction_type", "line_search_type", "nonlinear_conjugate_gradient_type",
          "line_search_interpolation_type", "minimizer_type", "trust_region_strategy_type", "dogleg_type",
          "linear_solver_type", "preconditioner_type", "visibility_clustering_type",
          "dense_linear_algebra_library_type", "sparse_linear_algebra_library_type",
          "linear_solver_ordering_type", "trust_region_problem_dump_format_type", "subset"}
Value(f, s) == IF s = "T" THEN TRUE ELSE IF s = "F" THEN FALSE
               ELSE IF f \in Words THEN s
               ELSE IF f = "trust_region_problem_dump_directory" THEN ""
               ELSE IF f \in Ints THEN DToInt(DLit(s), 0) ELSE DLit(s)
Set(o, f, s) == [o EXCEPT ![f] = Value(f, s)]

Fs == FieldsOf(Api)
VARIABLES o, n, i, phase, evaluations
vars == <<o, n, i, phase, evaluations>>
Init == o = Default /\ n = 0 /\ i = 0 /\ phase = "new" /\ evaluations = 0
Change == /\ phase = "new" /\ n < 2
          /\ \E k \in (i + 1)..Len(Fs) : \E v \in 1..Len(Fs[k].v) :
               o' = Set(o, Fs[k].f, Fs[k].v[v]) /\ i' = k
          /\ n' = n + 1 /\ UNCHANGED <<phase, evaluations>>
Ask == /\ phase = "new" /\ phase' = (IF Valid(Api, o) THEN "accepted" ELSE "refused")
       /\ UNCHANGED <<o, n, i, evaluations>>
Run == /\ phase = "accepted" /\ evaluations < 1 /\ evaluations' = evaluations + 1
       /\ UNCHANGED <<o, n, i, phase>>
Next == Change \/ Ask \/ Run
Spec == Init /\ [][Next]_vars

RefusedNeverRuns == phase = "refused" => evaluations = 0
\* what does not concern the chosen algorithm plays no part
TrustRegionFields == {"initial_trust_region_radius", "eta", "min_lm_diagonal", "linear_solver_type",
                      "preconditioner_type", "dynamic_sparsity", "sparse_linear_algebra_library_type",
                      "use_inner_iterations", "inner_iteration_tolerance", "min_relative_decrease"}
Reset(r, fs) == [f \in DOMAIN r |-> IF f \in fs THEN Default[f] ELSE r[f]]
Irrelevant ==
  /\ o.minimizer_type = "LINE_SEARCH" => Broken(Api, Reset(o, TrustRegionFields)) = Broken(Api, o)
  /\ NeedsDense(o) => Broken(Api, Reset(o, {"preconditioner_type", "subset", "sparse_linear_algebra_library_type",
                                            "linear_solver_ordering_type", "max_num_spse_iterations"})) = Broken(Api, o)
  /\ ~NeedsDense(o) => Broken(Api, Reset(o, {"dense_linear_algebra_library_type"})) = Broken(Api, o)
  /\ ~o.check_gradients => Broken(Api, Reset(o, {"gradient_check_relative_precision"})) = Broken(Api, o)
\* GradientProblemSolver is the line search minimizer with the same constraints
SameLineSearch == Broken("gradient", o) \subseteq Broken("solver", [o EXCEPT !.minimizer_type = "LINE_SEARCH"])
\* no constraint is vacuous: each is the only one broken by one or two changes
SinglesFrom(a) == {<<Fs[k].f, Fs[k].v[v]>> : <<k, v>> \in {p \in (a..Len(Fs)) \X (1..12) : p[2] <= Len(Fs[p[1]].v)}}
Truncated == [Default EXCEPT !.linear_solver_type = "ITERATIVE_SCHUR", !.preconditioner_type = "SCHUR_JACOBI",
                             !.use_spse_initialization = TRUE]
Reached == {Broken(Api, Set(Default, a[1], a[2])) : a \in SinglesFrom(1)}
           \cup {Broken(Api, Set(Truncated, a[1], a[2])) : a \in SinglesFrom(1)}
           \cup UNION {{Broken(Api, Set(Set(Default, q[1][1], q[1][2]), q[2][1], q[2][2])) :
                        q \in {<<Fs[k].f, Fs[k].v[v]>> : v \in 1..Len(Fs[k].v)} \X SinglesFrom(k + 1)} : k \in 1..Len(Fs)}
\* follow from others (the radii are in order and the smallest is positive)
Implied == {"min <= max_trust_region_radius", "max_line_search_step_contraction < 1",
            "initial_trust_region_radius", "max_trust_region_radius"}
ASSUME Valid(Api, Default)
ASSUME LET A == Reached IN
       /\ \A c \in UNION A : c \in Implied \/ {c} \in A \/ Print(<<"never alone", c>>, FALSE)
       /\ Cardinality(UNION A) >= (IF Api = "solver" THEN 45 ELSE 17) \/ Print(<<"few", Cardinality(UNION A)>>, FALSE)
=============================================================================
