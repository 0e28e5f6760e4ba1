---------------------------- MODULE MC_Covariance ----------------------------
(* Every request on every small set of blocks: exactly what was asked for can *)
(* be looked up, in either order, and is the block asked for; a failed or     *)
(* missing Compute refuses.                                                   *)
EXTENDS Covariance, TLC
CONSTANTS N, MaxSize
VARIABLES st, size, cst, req, layout, n
vars == <<st, size, cst, req, layout, n>>
Pairs == (1..N) \X (1..N)
Init == /\ st = "fresh" /\ size \in [1..N -> 1..MaxSize] /\ cst = {} /\ req = {} /\ layout = <<>> /\ n = 0
Compute(c, q, ok) == /\ n < 2 /\ n' = n + 1
                     /\ cst' = c /\ req' = q /\ UNCHANGED size
                     /\ layout' = IF \A p \in q : p[1] \in c \/ p[2] \in c THEN <<>> ELSE Layout(size, c, q)
                     /\ st' = IF ok THEN "computed" ELSE "failed"
\* a second Compute replaces everything the first one stored
Next == \E c \in SUBSET (1..N) : \E q \in SUBSET Pairs : \E ok \in BOOLEAN :
          (n = 1 => Cardinality(q) <= 1 /\ c = {}) /\ Compute(c, q, ok)
Spec == Init /\ [][Next]_vars
\* entry <<r, c>> of the symmetric matrix, by the blocks and coordinates it is about
Owner(r) == CHOOSE b \in Active(size, cst) : RowOf(size, cst, b) <= r /\ r < RowOf(size, cst, b) + size[b]
Name(r) == <<Owner(r), r - RowOf(size, cst, Owner(r)) + 1>>
Entry(r, c) == {Name(r), Name(c)}
Get(a, b) == Lookup(size, cst, layout, a, b, {}, Entry)
Asked(a, b) == <<a, b>> \in req \/ <<b, a>> \in req
Answers == st = "computed" =>
  \A a \in 1..N, b \in 1..N :
    LET g == Get(a, b) IN
    IF a \in cst \/ b \in cst THEN g = <<TRUE, [i \in 1..size[a] |-> [j \in 1..size[b] |-> {}]]>>
    ELSE /\ g[1] = Asked(a, b)
         /\ g[1] => g[2] = [i \in 1..size[a] |-> [j \in 1..size[b] |-> {<<a, i>>, <<b, j>>}]]
Shape == layout # <<>> =>
  /\ Len(layout) = Sum([i \in 1..N |-> IF i \in cst THEN 0 ELSE size[i]])
  /\ Sum([r \in 1..Len(layout) |-> Len(layout[r])]) =
       Sum([k \in 1..Len(Stored(req, cst)) |-> size[Stored(req, cst)[k][1]] * size[Stored(req, cst)[k][2]]])
  /\ \A r \in 1..Len(layout) : \A i \in 1..(Len(layout[r]) - 1) : Owner(layout[r][i]) <= Owner(layout[r][i + 1])
=============================================================================
