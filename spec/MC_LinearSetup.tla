--------------------------- MODULE MC_LinearSetup ---------------------------
(* Every small problem under every configuration: given, the reduced program, *)
(* the solver that is used, the order of blocks and residuals.                *)
EXTENDS LinearSetup, FiniteSetsExt
CONSTANTS NB, NR, Stranger
B == 1..NB
VARIABLES res, cst, c, ph, verdict, pos, ne, rows
vars == <<res, cst, c, ph, verdict, pos, ne, rows>>

Orders == {f \in [B \cup {Stranger} -> 0..3] : f[Stranger] < 2}
GroupsOf(f) == LET ids == {f[b] : b \in DOMAIN f} \ {0}
                   s == SetToSortSeq(ids, LAMBDA a, b : a < b)
               IN [i \in 1..Len(s) |-> [id |-> s[i], b |-> {b \in DOMAIN f : f[b] = s[i]}]]
Residuals == UNION {[1..n -> (SUBSET B) \ {{}}] : n \in 1..NR}
\* residuals in one order only; any order is a relabelling
Canonical(rs) == \A i \in 1..(Len(rs) - 1) :
                   LET w(s) == FoldSet(LAMBDA b, a : a + 2 ^ b, 0, s) IN w(rs[i]) <= w(rs[i + 1])
Types == {<<"DENSE_SCHUR", "JACOBI">>, <<"ITERATIVE_SCHUR", "SCHUR_JACOBI">>, <<"SPARSE_NORMAL_CHOLESKY", "JACOBI">>,
          <<"DENSE_QR", "JACOBI">>, <<"CGNR", "SUBSET">>}

Act == Active(res, cst)
Gone == B \ Act
Red == Reduced(res, cst)
Init == /\ res \in {r \in Residuals : Canonical(r)}
        /\ cst \in SUBSET B
        /\ Active(res, cst) # {}
        /\ \E ty \in Types, f \in Orders, g \in BOOLEAN :
             /\ (~g) => \A b \in DOMAIN f : f[b] = 0
             /\ c = [type |-> ty[1], pre |-> ty[2], dynamic |-> FALSE, given |-> g, groups |-> GroupsOf(f)]
        /\ ph = "given" /\ verdict = "" /\ pos = <<>> /\ ne = 0 /\ rows = <<>>
Decide == ph = "given" /\ verdict' = Verdict(c, Red, Act, Gone) /\ ph' = (IF verdict' = "ok" THEN "decided" ELSE "refused")
          /\ UNCHANGED <<res, cst, c, pos, ne, rows>>
Perms(S) == SetToSeqs(S)
\* the blocks of the program, in any order within what the groups demand
ByGroups(gs) == {FlattenSeq(p) : p \in {q \in [1..Len(gs) -> UNION {Perms(gs[i].b) : i \in 1..Len(gs)}] :
                                        \A i \in 1..Len(gs) : Range(q[i]) = gs[i].b}}
Place ==
  /\ ph = "decided" /\ ph' = "placed"
  /\ IF TypeUsed(c, Gone) \in SchurTypes
     THEN \E E \in FirstChoices(c, Red, Act, Gone) :
            /\ ne' = Cardinality(E)
            \* the others may be permuted to reduce fill in
            /\ \E p \in Perms(E), q \in Perms(Act \ E) : pos' = p \o q
     ELSE ne' = 0 /\ pos' \in Perms(Act)
  /\ UNCHANGED <<res, cst, c, verdict, rows>>
Sort == /\ ph = "placed" /\ ph' = "ready"
        /\ LET n == Len(Red) IN
           rows' = SortSeq(Red, LAMBDA a, b : Bucket(a, pos, ne) < Bucket(b, pos, ne))
        /\ UNCHANGED <<res, cst, c, verdict, pos, ne>>
Done == ph \in {"ready", "refused"} /\ UNCHANGED vars
Next == Decide \/ Place \/ Sort \/ Done
Spec == Init /\ [][Next]_vars

Schur == TypeUsed(c, Gone) \in SchurTypes
Ready == ph = "ready"
\* the program has every active block once, and nothing else
Complete == Ready => Len(pos) = Cardinality(Act) /\ Range(pos) = Act
\* a Schur type solver always has something to eliminate, and can do so
Eliminates == Ready /\ Schur => /\ ne >= 1
                                /\ Independent({pos[i] : i \in 1..ne}, Red)
\* every eliminated block has rows of its own, in its place
Buckets == Ready /\ Schur => /\ Sorted(rows, pos, ne)
                             /\ \A i \in 1..ne : \E j \in 1..Len(rows) : Bucket(rows[j], pos, ne) = i
                             /\ \A j \in 1..Len(rows) : Cardinality(rows[j] \cap {pos[i] : i \in 1..ne}) <= 1
\* nothing but what the user cannot do without is changed or refused
SameSolver == TypeUsed(c, Gone) # c.type => c.type \in SchurTypes /\ c.given /\ c.groups[1].b \subseteq Gone
Accepts == /\ (~c.given => verdict \in {"", "ok"})
           \* a complete order of the problem's blocks whose first group is independent
           /\ (c.given /\ c.groups # <<>> /\ Elements(c.groups) \ Gone = Act /\ Independent(c.groups[1].b, Red))
                => verdict \in {"", "ok"}
           \* never with something that is no block, where the order matters for elimination
           /\ (ph = "ready" /\ Schur /\ c.given) => Elements(c.groups) \subseteq B
=============================================================================
