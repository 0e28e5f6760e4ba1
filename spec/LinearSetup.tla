---------------------------- MODULE LinearSetup ----------------------------
(* How a problem is prepared for a linear solver.  A problem is a sequence of *)
(* residuals, each the set of blocks it depends on, and the set of constant   *)
(* blocks.  The user's elimination order is a sequence of groups [id, b] with *)
(* growing ids; b may contain things that are not blocks of the problem.      *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

SchurTypes == {"DENSE_SCHUR", "SPARSE_SCHUR", "ITERATIVE_SCHUR"}

\* ------------------------------------------------------------- the problem
\* what takes part: blocks that vary and that some residual depends on
Active(res, cst) == (UNION Range(res)) \ cst
Reduced(res, cst) == SelectSeq([i \in 1..Len(res) |-> res[i] \ cst], LAMBDA s : s # {})
Independent(S, res) == \A i \in 1..Len(res) : Cardinality(res[i] \cap S) <= 1
Maximal(S, all, res) == Independent(S, res) /\ \A b \in all \ S : ~Independent(S \cup {b}, res)

\* ------------------------------------------------------------- elimination
Without(gs, gone) == SelectSeq([i \in 1..Len(gs) |-> [id |-> gs[i].id, b |-> gs[i].b \ gone]], LAMBDA g : g.b # {})
Elements(gs) == UNION {gs[i].b : i \in 1..Len(gs)}
\* the group that would be eliminated first is gone
Vanished(given, left) == given # <<>> /\ (left = <<>> \/ left[1].id # given[1].id)

\* what is used when nothing can be eliminated
NoEliminationType(ty) == CASE ty = "SPARSE_SCHUR" -> "SPARSE_NORMAL_CHOLESKY"
                           [] ty = "DENSE_SCHUR" -> "DENSE_QR"
                           [] ty = "ITERATIVE_SCHUR" -> "CGNR"
                           [] OTHER -> ty
NoEliminationPre(pre) == IF pre \in {"SCHUR_JACOBI", "SCHUR_POWER_SERIES_EXPANSION", "CLUSTER_JACOBI", "CLUSTER_TRIDIAGONAL"}
                         THEN "JACOBI" ELSE pre
\* c: [type, pre, dynamic, given (whether an order was given), groups]
Falls(c, gone) == c.type \in SchurTypes /\ c.given /\ Vanished(c.groups, Without(c.groups, gone))
TypeUsed(c, gone) == IF Falls(c, gone) THEN NoEliminationType(c.type) ELSE c.type
PreUsed(c, gone) == IF Falls(c, gone) /\ c.type = "ITERATIVE_SCHUR" THEN NoEliminationPre(c.pre) ELSE c.pre
\* does the solver look at the order?
UsesOrder(ty, pre, dynamic) == \/ ty \in SchurTypes
                               \/ ty = "SPARSE_NORMAL_CHOLESKY" /\ ~dynamic
                               \/ ty = "CGNR" /\ pre = "SUBSET"
\* why the configuration is refused; "ok" if it is not
Verdict(c, res, act, gone) ==
  LET ty == TypeUsed(c, gone)
      left == Without(c.groups, gone)
      all == Elements(left)
  IN IF ~c.given \/ ~UsesOrder(ty, PreUsed(c, gone), c.dynamic) THEN "ok"
     ELSE IF Cardinality(all) # Cardinality(act) THEN "count"
     ELSE IF ty \notin SchurTypes THEN "ok"
     ELSE IF Len(left) > 1 /\ ~Independent(left[1].b, res) THEN "dependent"
     ELSE IF all # act THEN "unknown"
     ELSE "ok"
\* the first group is up to the solver
Chooses(c, gone) == TypeUsed(c, gone) \in SchurTypes /\ (~c.given \/ Len(Without(c.groups, gone)) = 1)
\* what may be eliminated first by a Schur type solver
FirstChoices(c, res, act, gone) ==
  IF Chooses(c, gone) THEN {S \in SUBSET act : S # {} /\ Maximal(S, act, res)}
  ELSE {Without(c.groups, gone)[1].b}

\* ------------------------------------------------------------- the program
\* pos: the order of the blocks; the first ne of them are eliminated
Bucket(r, pos, ne) == LET at == {i \in 1..ne : pos[i] \in r} IN
                      IF at = {} THEN ne + 1 ELSE CHOOSE i \in at : \A j \in at : i <= j
Sorted(rs, pos, ne) == \A i \in 1..(Len(rs) - 1) : Bucket(rs[i], pos, ne) <= Bucket(rs[i + 1], pos, ne)
============================================================================
