---------------------------- MODULE ParallelTrace ----------------------------
(* Recorded parallel loops of the real code, under a chosen schedule, against *)
(* ParallelLoop.tla.                                                          *)
EXTENDS ParallelLoop, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, loops, gone
vars == <<t, l, loops, gone>>
Ev == Traces[t].ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ loops = <<>> /\ gone = FALSE
L == loops[Ev.c + 1]
Known == Ev.c + 1 \in DOMAIN loops
Set(x) == loops' = [loops EXCEPT ![Ev.c + 1] = x] /\ UNCHANGED gone
\* The caller of a nested loop is in the middle of a piece of the outer one.
Call == /\ Ev.c = Len(loops) /\ ~gone
        /\ Ev.par >= 0 => /\ loops[Ev.par + 1].open
                          /\ \E r \in loops[Ev.par + 1].run : r.f = Ev.f
        /\ loops' = Append(loops, NewLoop(Ev.f, Ev.s, Ev.e, Ev.nt, Ev.mb, Ev.tid))
        /\ UNCHANGED gone
B == Known /\ MayBegin(L, Ev.f, Ev.t, Ev.lo, Ev.hi) /\ Set(Begin(L, Ev.f, Ev.t, Ev.lo, Ev.hi))
E == Known /\ MayEnd(L, Ev.f, Ev.t, Ev.lo) /\ Set(End(L, Ev.f, Ev.t, Ev.lo))
\* n counts the indices whose effect the caller sees
R == Known /\ MayReturn(L, Ev.f) /\ Ev.n = (IF L.e > L.s THEN L.e - L.s ELSE 0) /\ Set(Return(L))
\* the context has been destroyed
Gone == /\ \A i \in DOMAIN loops : ~loops[i].open
        /\ gone' = TRUE /\ UNCHANGED loops
\* nothing is stuck, no thread is left
Finished == gone /\ Ev.left = 0 /\ UNCHANGED <<loops, gone>>
Split == GoodSplit(Ev.cum, Ev.s, Ev.e, Ev.max, Ev.p) /\ UNCHANGED <<loops, gone>>
Tri == Triangle(Ev.n, Ev.ij) /\ UNCHANGED <<loops, gone>>
\* assignment and zeroing of whole vectors
Vec == Ev.bad = 0 /\ Ev.out = 0 /\ UNCHANGED <<loops, gone>>
Step == CASE Ev.k = "call" -> Call
          [] Ev.k = "b" -> B
          [] Ev.k = "e" -> E
          [] Ev.k = "r" -> R
          [] Ev.k = "gone" -> Gone
          [] Ev.k = "end" -> Finished
          [] Ev.k = "part" -> Split
          [] Ev.k = "tri" -> Tri
          [] Ev.k = "vec" -> Vec
          [] OTHER -> FALSE   \* deadlock, livelock, abort
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Next == \/ Done
        \/ l <= Len(Traces[t].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
