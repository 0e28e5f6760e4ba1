-------------------------- MODULE StepEvaluatorTrace -------------------------
(* Recorded uses of the real step evaluator against StepEvaluator.tla.        *)
EXTENDS StepEvaluator, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s
vars == <<t, l, s>>
Ev == Traces[t].ev[l]
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ s = SEInit(Traces[t].c0)
\* Q: the quality of a possible step; A: the step is taken
Ask == /\ Ev.op = "Q" /\ UNCHANGED s
       /\ DNear(Ev.q, Quality(s, Ev.c, Ev.m), DLit("1e-12"), DLit("1e-13"))
Take == Ev.op = "A" /\ s' = StepTaken(s, Ev.c, Ev.m, Traces[t].win)
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Next == \/ Done
        \/ l <= Len(Traces[t].ev) /\ (Ask \/ Take) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
