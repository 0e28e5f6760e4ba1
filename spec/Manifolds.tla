------------------------------ MODULE Manifolds ------------------------------
(* Manifolds as terms, and what their operations are.                         *)
(*   [k |-> "E", n]         Euclidean space of n coordinates                   *)
(*   [k |-> "S", n, c]      n coordinates, those listed in c (from 0) constant *)
(*   [k |-> "P", f]         the product of the manifolds of the sequence f     *)
(*   [k |-> "Q"], "R"       unit quaternions (w first; w last)                 *)
(*   [k |-> "O", n]         sphere in n coordinates                            *)
(*   [k |-> "L", n]         lines in n dimensions (origin, direction)          *)
(*   [k |-> "F", n, b]      like E, but operations of the set b report failure *)
(* The first three are linear; for them everything is defined outright.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Add(_, _), Sub(_, _), Zero, One

ToSet(s) == {s[i] : i \in 1..Len(s)}
Free(m) == {i \in 1..m.n : (i - 1) \notin ToSet(m.c)}

RECURSIVE Amb(_), Tan(_), AmbSum(_, _), TanSum(_, _)
Amb(m) == CASE m.k \in {"E", "S", "O", "F"} -> m.n
            [] m.k \in {"Q", "R"} -> 4
            [] m.k = "L" -> 2 * m.n
            [] m.k = "P" -> AmbSum(m.f, Len(m.f))
Tan(m) == CASE m.k \in {"E", "F"} -> m.n
            [] m.k = "S" -> Cardinality(Free(m))
            [] m.k = "O" -> m.n - 1
            [] m.k \in {"Q", "R"} -> 3
            [] m.k = "L" -> 2 * (m.n - 1)
            [] m.k = "P" -> TanSum(m.f, Len(m.f))
\* of the first j factors
AmbSum(f, j) == IF j = 0 THEN 0 ELSE AmbSum(f, j - 1) + Amb(f[j])
TanSum(f, j) == IF j = 0 THEN 0 ELSE TanSum(f, j - 1) + Tan(f[j])
\* the part of an ambient (tangent) vector that belongs to factor j
APart(f, v, j) == SubSeq(v, AmbSum(f, j - 1) + 1, AmbSum(f, j))
TPart(f, v, j) == SubSeq(v, TanSum(f, j - 1) + 1, TanSum(f, j))
\* the block of a matrix (sequence of rows)
Block(M, r, nr, c, nc) == [i \in 1..nr |-> SubSeq(M[r + i], c + 1, c + nc)]

RECURSIVE Linear(_)
Linear(m) == m.k \in {"E", "S"} \/ (m.k = "P" /\ \A j \in 1..Len(m.f) : Linear(m.f[j]))

\* position among the free coordinates
Rank(m, i) == Cardinality({h \in Free(m) : h <= i})

RECURSIVE Plus(_, _, _), Minus(_, _, _), PlusJ(_), Flat(_, _, _, _), FlatM(_, _, _, _)
Plus(m, x, d) ==
  CASE m.k = "E" -> [i \in 1..m.n |-> Add(x[i], d[i])]
    [] m.k = "S" -> [i \in 1..m.n |-> IF i \in Free(m) THEN Add(x[i], d[Rank(m, i)]) ELSE x[i]]
    [] m.k = "P" -> Flat(m.f, x, d, Len(m.f))
Flat(f, x, d, j) == IF j = 0 THEN <<>>
                    ELSE Flat(f, x, d, j - 1) \o Plus(f[j], APart(f, x, j), TPart(f, d, j))
Minus(m, y, x) ==
  CASE m.k = "E" -> [i \in 1..m.n |-> Sub(y[i], x[i])]
    [] m.k = "S" -> [t \in 1..Tan(m) |-> LET i == CHOOSE i \in Free(m) : Rank(m, i) = t IN Sub(y[i], x[i])]
    [] m.k = "P" -> FlatM(m.f, y, x, Len(m.f))
FlatM(f, y, x, j) == IF j = 0 THEN <<>>
                     ELSE FlatM(f, y, x, j - 1) \o Minus(f[j], APart(f, y, j), APart(f, x, j))
\* the derivative of Plus, as a function of row and column; its transpose is
\* that of Minus
PlusJ(m) ==
  CASE m.k = "E" -> [i \in 1..m.n |-> [t \in 1..m.n |-> IF i = t THEN One ELSE Zero]]
    [] m.k = "S" -> [i \in 1..m.n |-> [t \in 1..Tan(m) |-> IF i \in Free(m) /\ Rank(m, i) = t THEN One ELSE Zero]]
    [] m.k = "P" ->
       LET fac(i) == CHOOSE j \in 1..Len(m.f) : AmbSum(m.f, j - 1) < i /\ i <= AmbSum(m.f, j)
           J == [j \in 1..Len(m.f) |-> PlusJ(m.f[j])]
       IN [i \in 1..Amb(m) |-> [t \in 1..Tan(m) |->
            LET j == fac(i) IN
            IF TanSum(m.f, j - 1) < t /\ t <= TanSum(m.f, j)
            THEN J[j][i - AmbSum(m.f, j - 1)][t - TanSum(m.f, j - 1)] ELSE Zero]]
\* coordinates that no step moves
RECURSIVE Const(_)
Const(m) == CASE m.k = "E" -> {}
              [] m.k = "S" -> (1..m.n) \ Free(m)
              [] m.k = "P" -> UNION {{AmbSum(m.f, j - 1) + i : i \in Const(m.f[j])} : j \in 1..Len(m.f)}

\* arguments with which a subset manifold can be built
SubsetOk(n, c) == /\ \A i \in 1..Len(c) : c[i] >= 0 /\ c[i] < n
                  /\ \A i, j \in 1..Len(c) : i # j => c[i] # c[j]
=============================================================================
