----------------------------- MODULE MC_LineSearch -----------------------------
(* Every line search over every function with small integer costs and slopes.   *)
EXTENDS Integers, Sequences, FiniteSets
C0 == 3
G0 == -2
MLe(x, y) == x <= y
MMinus(x, y) == x - y
MTimes(x, y) == x * y
MHalf(x) == x \div 2
MZero == 0
\* sufficient decrease 1/4, steps in eighths: 16 (c - c0) <= g0 x
MArmijo(p, s) == {16 * (s.c - C0) <= G0 * s.x}
MCurv(p, s) == {2 * (IF s.g < 0 THEN -s.g ELSE s.g) <= -G0}
MSmall(p, w) == {w < 1}
CONSTANTS Le(_, _), Minus(_, _), Times(_, _), Half(_), Zero, Armijo(_, _), Curv(_, _), Small(_, _)
INSTANCE LineSearch
VARIABLES p, S, hist
vars == <<p, S, hist>>
Zs == [x |-> 0, ok |-> TRUE, c |-> C0, g |-> G0]
\* contraction factors are rationals in the code; here the range is set directly
Init == /\ \E kd \in {"ARMIJO", "WOLFE"}, ip \in {"BISECTION", "CUBIC"}, m \in 1..3, s0 \in {2, 4} :
             /\ p = [kind |-> kd, interp |-> ip, maxit |-> m, maxc |-> 0, minc |-> 1, expand |-> 2]
             /\ S = Start(p, Zs, s0)
        /\ hist = {}
Only == CHOOSE c \in S : TRUE
Next ==
  /\ Only.k = "want"
  /\ IF GivesUp(p, Only) = {TRUE} THEN S' = Fail(Only.n) /\ UNCHANGED <<p, hist>>
     ELSE \E x \in Only.lo..Only.hi, ok \in BOOLEAN, c \in 0..4, g \in {-2, -1, 0, 2} :
          LET s == [x |-> x, ok |-> ok, c |-> c, g |-> g] IN
          /\ ok \/ (c = 0 /\ g = 0)
          /\ \A q \in hist : q.x = x => q = s
          /\ Only.ph = "A" => x <= 8
          /\ S' = After(p, Only, s) /\ hist' = hist \cup {s} /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
TypeOK == Cardinality(S) = 1
\* a search ends within its budget
Bounded == Only.n <= p.maxit /\ Cardinality(hist) <= p.maxit
\* what a successful search returns
Sound ==
  Only.k = "ok" =>
    /\ Only.pt = Zs \/ (Only.pt \in hist /\ TRUE \in MArmijo(p, Only.pt))
    /\ Only.pt.c <= C0
    /\ p.kind = "WOLFE" /\ Only.full => TRUE \in MCurv(p, Only.pt)
    /\ p.kind = "ARMIJO" => Only.pt # Zs \/ Zs \in hist
\* the point is the best of those that satisfy the sufficient decrease condition
Lowest ==
  (Only.k = "ok" /\ p.kind = "WOLFE") =>
     \A s \in hist : (s.ok /\ TRUE \in MArmijo(p, s)) => (Only.pt.c <= s.c \/ Only.full)
Brackets == Only.k = "want" => Only.lo <= Only.hi /\ (Only.ph = "Z" => Only.low.c <= Only.prev.c)
================================================================================
