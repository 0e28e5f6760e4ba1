---------------------------- MODULE OptionsTrace -----------------------------
(* What IsValid said and what Solve did with one option set.                  *)
EXTENDS Options, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
T == Traces[t]
Ev == T.ev[l]
Init == t \in 1..Len(Traces) /\ l = 1
Judged(e) ==
  /\ Open(e.o) \/ (e.valid = Valid(e.api, e.o))
  /\ (Open(e.o) /\ Broken(e.api, e.o) # {}) => ~e.valid
  /\ ~e.valid => e.error # ""
Refused(e) ==
  /\ ~e.aborted /\ e.term = "FAILURE" /\ e.message # "" /\ e.calls = 0 /\ e.same_x
\* an accepted option set runs: the problem of the driver is legal, so the
\* starting point is evaluated, unless the minimizer cannot do bounds
Ran(e) ==
  /\ ~e.aborted
  /\ e.message # ""
  /\ IF e.api = "solver" /\ e.bounded /\ e.o.minimizer_type = "LINE_SEARCH"
     THEN e.term = "FAILURE" /\ e.calls = 0 /\ e.same_x
     ELSE /\ e.calls > 0
          /\ e.term \in {"CONVERGENCE", "NO_CONVERGENCE"} => DLe(e.final, e.initial)
Step == /\ l <= Len(T.ev)
        /\ Judged(Ev) /\ Ev.same_shape
        /\ IF Ev.valid THEN Ran(Ev) ELSE Refused(Ev)
        /\ l' = l + 1 /\ UNCHANGED t
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
