------------------------------ MODULE TinySolver ------------------------------
(* The control of TinySolver: evaluate with derivatives, then repeat          *)
(* (step; stop if it is tiny; evaluate; take it if it is good; stop by a      *)
(* criterion; adapt the damping).  Costs are abstract here.                   *)
EXTENDS Integers
VARIABLES ph,    \* "idle" "start" "loop" "tried" "stop" "over"
          it,    \* trial steps begun in this solve
          why    \* why it stops
tsvars == <<ph, it, why>>
TSInit == ph = "idle" /\ it = 0 /\ why = "none"
Begin == ph \in {"idle", "over"} /\ ph' = "start" /\ it' = 0 /\ why' = "none"
\* derivatives at the start
First == ph = "start" /\ ph' = "loop" /\ UNCHANGED <<it, why>>
\* a trial point is evaluated
Try(max) == ph \in {"loop"} /\ it + 1 < max /\ ph' = "tried" /\ it' = it + 1 /\ UNCHANGED why
\* ... and found good: derivatives are evaluated there
Take == ph = "tried" /\ ph' = "loop" /\ UNCHANGED <<it, why>>
\* ... or not
Leave == ph = "tried" /\ ph' = "loop" /\ UNCHANGED <<it, why>>
Stop(s) == ph \in {"loop", "tried"} /\ ph' = "over" /\ why' = s /\ UNCHANGED it
=============================================================================
