----------------------------- MODULE MC_TinySolver -----------------------------
(* TinySolver.tla with costs: every sequence of trial costs, checking that the  *)
(* point kept is never worse than the start, and that the loop is bounded.      *)
EXTENDS TinySolver
CONSTANTS Costs, Max
VARIABLES c, c0, tc
mvars == <<tsvars, c, c0, tc>>
Init == TSInit /\ c = 0 /\ c0 = 0 /\ tc = 0
Next == \/ Begin /\ UNCHANGED <<c, c0, tc>>
        \/ First /\ \E k \in Costs : c' = k /\ c0' = k /\ UNCHANGED tc
        \/ \E k \in Costs : Try(Max) /\ tc' = k /\ UNCHANGED <<c, c0>>
        \/ tc < c /\ Take /\ c' = tc /\ UNCHANGED <<c0, tc>>
        \/ tc >= c /\ Leave /\ UNCHANGED <<c, c0, tc>>
        \/ ph = "loop" /\ it + 1 >= Max /\ Stop("MAX") /\ UNCHANGED <<c, c0, tc>>
        \/ ph = "loop" /\ \E s \in {"GRADIENT", "COST", "STEP", "CHANGE"} : Stop(s) /\ UNCHANGED <<c, c0, tc>>
        \/ ph = "tried" /\ tc >= c /\ Stop("CHANGE") /\ UNCHANGED <<c, c0, tc>>
Spec == Init /\ [][Next]_mvars
Descends == ph # "start" => c <= c0
Bounded == it < Max \/ it = 0
=============================================================================
