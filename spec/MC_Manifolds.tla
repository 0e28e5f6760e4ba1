----------------------------- MODULE MC_Manifolds -----------------------------
(* The laws of linear manifolds, for every term with few coordinates and all   *)
(* small integer vectors.                                                      *)
EXTENDS Manifolds
IAdd(a, b) == a + b
ISub(a, b) == a - b
E(n) == [k |-> "E", n |-> n]
S(n, c) == [k |-> "S", n |-> n, c |-> c]
P(f) == [k |-> "P", f |-> f]
Leaves == {E(n) : n \in 0..2}
          \cup UNION {{S(n, c) : c \in {s \in {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<2, 0>>} : SubsetOk(n, s)}} : n \in 1..3}
Two == {P(<<a, b>>) : a \in Leaves, b \in Leaves}
Three == {P(<<a, b, c>>) : a \in {E(1), S(2, <<0>>)}, b \in {E(0), S(2, <<1>>), S(1, <<0>>)}, c \in {E(1), S(2, <<0, 1>>)}}
Nested == {P(<<a, P(<<b, c>>)>>) : a \in {E(1), S(2, <<1>>)}, b \in {E(1), S(2, <<0>>)}, c \in {E(0), E(1)}}
          \cup {P(<<P(<<b, c>>), a>>) : a \in {E(1), S(1, <<0>>)}, b \in {E(1), S(2, <<0>>)}, c \in {E(0), E(1)}}
Terms == {m \in Leaves \cup Two \cup Three \cup Nested : Amb(m) <= 4}
Val == {-1, 2}
VARIABLES m, x, d
Init == /\ m \in Terms
        /\ x \in [1..Amb(m) -> {0, 1}]
        /\ d \in [1..Tan(m) -> Val]
Next == UNCHANGED <<m, x, d>>
Spec == Init /\ [][Next]_<<m, x, d>>

y == Plus(m, x, d)
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE Sum(f, n - 1) + f[n]
Laws ==
  /\ Len(y) = Amb(m) /\ Linear(m)
  /\ Minus(m, y, x) = d
  /\ Plus(m, x, Minus(m, y, x)) = y
  /\ Plus(m, x, [i \in 1..Tan(m) |-> 0]) = x
  /\ \A i \in Const(m) : y[i] = x[i]
  \* linear: the derivative maps the step to the change, exactly
  /\ LET J == PlusJ(m) IN
     /\ \A i \in 1..Amb(m) : y[i] - x[i] = Sum([t \in 1..Tan(m) |-> J[i][t] * d[t]], Tan(m))
     \* and its transpose is a left inverse (the derivative of Minus)
     /\ \A s, t \in 1..Tan(m) : Sum([i \in 1..Amb(m) |-> J[i][s] * J[i][t]], Amb(m)) = IF s = t THEN 1 ELSE 0
\* a product does not care how it is nested
Assoc == m.k = "P" /\ Len(m.f) = 3 =>
           /\ Plus(P(<<m.f[1], P(<<m.f[2], m.f[3]>>)>>), x, d) = y
           /\ PlusJ(P(<<P(<<m.f[1], m.f[2]>>), m.f[3]>>)) = PlusJ(m)
=============================================================================
