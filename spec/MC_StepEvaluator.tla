-------------------------- MODULE MC_StepEvaluator --------------------------
(* Exhaustive check of StepEvaluator.tla against what the automaton stands    *)
(* for, stated over the whole history of accepted steps.                      *)
EXTENDS StepEvaluator, FiniteSets
CONSTANTS MaxCost, MaxModel, MaxLen, MaxWin
VARIABLES s, win,
  h    \* <<cost, model cost change>> of the start and of every accepted step
vars == <<s, win, h>>
Init == /\ win \in 0..MaxWin
        /\ \E c \in 0..MaxCost : s = SEInit(DInt(c)) /\ h = <<<<c, 0>>>>
Next == /\ Len(h) <= MaxLen
        /\ \E c \in 0..MaxCost, m \in 1..MaxModel :
             /\ DLt(0, Quality(s, DInt(c), DInt(m)))
             /\ s' = StepTaken(s, DInt(c), DInt(m), win)
             /\ h' = Append(h, <<c, m>>)
        /\ UNCHANGED win
Spec == Init /\ [][Next]_vars

C(i) == h[i][1]
RECURSIVE Sum(_, _)
Sum(i, j) == IF i > j THEN 0 ELSE h[i][2] + Sum(i + 1, j)
N == Len(h)
\* first point of minimal cost so far
ArgMin == CHOOSE i \in 1..N : /\ \A j \in 1..N : C(i) <= C(j)
                              /\ \A j \in 1..(i - 1) : C(j) > C(i)
\* first point of maximal cost since then
ArgMax == CHOOSE i \in ArgMin..N : /\ \A j \in ArgMin..N : C(i) >= C(j)
                                   /\ \A j \in ArgMin..(i - 1) : C(j) < C(i)
Meaning == /\ DEq(s.min, C(ArgMin)) /\ DEq(s.cur, C(N)) /\ s.n = N - ArgMin
           /\ DEq(s.can, C(ArgMax)) /\ DEq(s.acca, Sum(ArgMax + 1, N))
\* the reference is one of the accepted points, with what the models
\* promised since, and never below the minimum
Reference == /\ \E r \in 1..N : DEq(s.ref, C(r)) /\ DEq(s.accr, Sum(r + 1, N))
             /\ DLe(s.min, s.ref)
\* a window of zero is the monotonic method
Monotonic == win = 0 => /\ DEq(s.ref, s.cur) /\ DEq(s.accr, 0)
                        /\ \A i \in 2..N : C(i) < C(i - 1)
\* win steps without a new minimum pull the reference down to the candidate
Descends == s.n >= win => DLe(s.ref, s.can)
Unbounded == Quality(s, DMaxValue, DInt(1)) = DLowest
=============================================================================
