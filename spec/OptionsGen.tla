----------------------------- MODULE OptionsGen ------------------------------
(* Option sets as lists of deviations from the defaults.                      *)
(* Mode "pairs": every single deviation and every pair (breadth first).       *)
(* Mode "solvers": every linear solver, preconditioner and subset, with some. *)
(* Mode "mix": random sets of several deviations, mostly harmless ones        *)
(* (simulation).                                                              *)
EXTENDS Options, TLC, Json
CONSTANTS Api, Mode, MaxDev
VARIABLES dev, i, done
vars == <<dev, i, done>>
Fs == FieldsOf(Api)
\* a scenario is a problem variant and a list of <<field, value>>
Emit(d) == PrintT("SCRIPT " \o ToJson(d))
Init == dev = <<>> /\ i = 0 /\ done = FALSE
Pairs ==
  /\ Mode = "pairs" /\ Len(dev) < MaxDev
  /\ \E k \in (i + 1)..Len(Fs) : \E v \in 1..Len(Fs[k].v) :
       /\ dev' = Append(dev, <<Fs[k].f, Fs[k].v[v]>>) /\ i' = k
  /\ UNCHANGED done
R(S) == RandomElement(S)
\* numbers in the mix: rarely a boundary; enumerators: often
Weight(f) == IF Len(f.v) > 5 /\ f.v[1] \in {"0", "-1e-300", "1"} THEN 4 ELSE IF f.v[1] \in {"-1", "0"} THEN 10 ELSE 34
Mix ==
  /\ Mode = "mix" /\ i < Len(Fs)
  /\ i' = i + 1
  /\ LET f == Fs[i'] IN
     \E k \in {R(1..100)}, v \in {R(1..Len(f.v))} :
       dev' = IF k <= Weight(f) THEN Append(dev, <<f.f, f.v[v]>>) ELSE dev
  /\ done' = (i' = Len(Fs))
  /\ (done' => Emit(dev'))
\* every linear solver, preconditioner and subset, with up to MaxDev further
\* deviations of what a linear solver may look at
Looked == <<F("sparse_linear_algebra_library_type", <<"CUDA_SPARSE", "NO_SPARSE", "SUITE_SPARSE">>),
  F("dense_linear_algebra_library_type", <<"LAPACK">>), F("linear_solver_ordering_type", <<"NESDIS">>),
  F("use_explicit_schur_complement", <<"T">>), F("dynamic_sparsity", <<"T">>),
  F("use_mixed_precision_solves", <<"T">>), F("use_spse_initialization", <<"T">>),
  F("max_num_spse_iterations", <<"0">>), F("spse_tolerance", <<"-1", "nan">>),
  F("trust_region_strategy_type", <<"DOGLEG">>), F("use_inner_iterations", <<"T">>), F("num_threads", <<"3">>),
  F("max_linear_solver_iterations", <<"0">>), F("minimizer_type", <<"LINE_SEARCH">>), F("check_gradients", <<"T">>)>>
Solvers ==
  /\ Mode = "solvers"
  /\ IF i = 0
     THEN /\ \E a \in {"DENSE_NORMAL_CHOLESKY", "DENSE_QR", "SPARSE_NORMAL_CHOLESKY", "DENSE_SCHUR", "SPARSE_SCHUR", "ITERATIVE_SCHUR", "CGNR"},
               b \in {"IDENTITY", "JACOBI", "SCHUR_JACOBI", "SCHUR_POWER_SERIES_EXPANSION", "CLUSTER_JACOBI", "CLUSTER_TRIDIAGONAL", "SUBSET"},
               c \in {"none", "some", "all"} :
               dev' = <<<<"linear_solver_type", a>>, <<"preconditioner_type", b>>, <<"subset", c>>>>
          /\ i' = 1
     ELSE /\ Len(dev) < 3 + MaxDev
          /\ \E k \in i..Len(Looked) : \E v \in 1..Len(Looked[k].v) :
               dev' = Append(dev, <<Looked[k].f, Looked[k].v[v]>>) /\ i' = k + 1
  /\ UNCHANGED done
Next == Pairs \/ Mix \/ Solvers
Spec == Init /\ [][Next]_vars
Printed == Mode \in {"pairs", "solvers"} => Emit(dev)
=============================================================================
