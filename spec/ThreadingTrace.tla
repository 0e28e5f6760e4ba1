--------------------------- MODULE ThreadingTrace ---------------------------
(* Recorded histories of the real queue, thread pool and token provider,      *)
(* under a chosen schedule.                                                   *)
EXTENDS TLC, WorkQueue, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s
vars == <<t, l, s>>
Ev == Traces[t].ev[l]
Kind == Traces[t].kind

-----------------------------------------------------------------------------
(* Queue: pend is the calls that have not returned, cfgs the configurations.  *)
QInit == [pend |-> <<>>, cfgs |-> {[q |-> <<>>, w |-> TRUE, res |-> <<>>]}, over |-> FALSE]
\* what is reached by letting pending calls take effect, the last being th's
RECURSIVE Upto(_, _, _)
Upto(front, seen, th) ==
  LET more == UNION {UNION {Effect(c, x, s.pend[x][1], s.pend[x][2]) : x \in DOMAIN s.pend \ DOMAIN c.res} : c \in front} \ seen
  IN  IF more = {} THEN seen
      ELSE Upto({c \in more : th \notin DOMAIN c.res}, seen \cup more, th)
Without(fn, th) == [x \in DOMAIN fn \ {th} |-> fn[x]]
QInv == s' = [s EXCEPT !.pend = @ @@ (Ev.f :> <<Ev.op, Ev.v>>)]
QRes == LET all == Upto({c \in s.cfgs : Ev.f \notin DOMAIN c.res}, s.cfgs, Ev.f)
            ok == {c \in all : Ev.f \in DOMAIN c.res /\ c.res[Ev.f] = <<Ev.ok, Ev.v>>}
        IN  /\ ok # {}
            /\ s' = [s EXCEPT !.pend = Without(@, Ev.f), !.cfgs = {[c EXCEPT !.res = Without(@, Ev.f)] : c \in ok}]
\* Nobody can move: only Wait may be pending, on an empty queue that blocks.
\* (A call which has taken effect could return.)
QQuiet == LET ok == {c \in s.cfgs : c.res = <<>> /\ (s.pend # <<>> => c.q = <<>> /\ c.w)}
          IN  /\ ok # {} /\ \A th \in DOMAIN s.pend : s.pend[th][1] = "wait"
              /\ s' = [s EXCEPT !.cfgs = ok]
QGone == s.pend = <<>> /\ (\E c \in s.cfgs : c.q = <<>>) /\ s' = [s EXCEPT !.over = TRUE]
QStep == CASE Ev.k = "inv" -> QInv
           [] Ev.k = "res" -> QRes
           [] Ev.k = "quiet" -> QQuiet
           [] Ev.k = "gone" -> QGone
           [] Ev.k = "end" -> s.over /\ Ev.left = 0 /\ UNCHANGED s
           [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Pool: lo..hi the number of workers (they differ only during Resize), asked *)
(* the tasks somebody began to add, added those whose AddTask has returned,   *)
(* before[id] the tasks added before id was asked for, run who runs what.     *)
PMin(a, b) == IF a < b THEN a ELSE b
Cap(n) == IF s.hw = 0 THEN n ELSE PMin(n, s.hw)
Grown(n) == IF Cap(n) > s.hi THEN Cap(n) ELSE s.hi
PInit == [lo |-> 0, hi |-> 0, hw |-> 0, asked |-> {}, added |-> {}, started |-> {}, ended |-> {},
          before |-> <<>>, run |-> <<>>, must |-> {}, over |-> FALSE]
PNew == s' = [s EXCEPT !.hw = Ev.hw, !.lo = IF Ev.hw = 0 THEN Ev.n ELSE PMin(Ev.n, Ev.hw),
                       !.hi = IF Ev.hw = 0 THEN Ev.n ELSE PMin(Ev.n, Ev.hw)]
PAdd == s' = [s EXCEPT !.asked = @ \cup {Ev.id}, !.before = @ @@ (Ev.id :> s.added)]
PAdded == s' = [s EXCEPT !.added = @ \cup {Ev.id}]
PStart == /\ ~s.over
          /\ Ev.id \in s.asked \ s.started
          /\ Ev.f # 0 /\ Ev.f \notin DOMAIN s.run
          /\ Cardinality(DOMAIN s.run) < s.hi
          \* in order: whoever overtakes it is in the hands of another worker
          /\ Cardinality(s.before[Ev.id] \ s.started) <= s.hi - Cardinality(DOMAIN s.run) - 1
          /\ s' = [s EXCEPT !.started = @ \cup {Ev.id}, !.run = @ @@ (Ev.f :> Ev.id)]
PEnd == /\ ~s.over /\ Ev.f \in DOMAIN s.run /\ s.run[Ev.f] = Ev.id
        /\ s' = [s EXCEPT !.ended = @ \cup {Ev.id}, !.run = Without(@, Ev.f)]
PResize == s' = [s EXCEPT !.hi = Grown(Ev.n)]
PResized == s' = [s EXCEPT !.lo = s.hi]
PSize == s.lo = s.hi /\ Ev.n = s.lo /\ UNCHANGED s
\* Nobody can move: a task waits only if every worker is busy.
PQuiet == /\ s.added \subseteq s.started \/ Cardinality(DOMAIN s.run) = s.lo
          /\ s.asked = s.added
          /\ UNCHANGED s
PDestroy == s' = [s EXCEPT !.must = s.added]
PGone == /\ s.run = <<>>
         /\ IF s.lo > 0 THEN s.must \subseteq s.ended ELSE s.started = {}
         /\ s' = [s EXCEPT !.over = TRUE]
PStep == CASE Ev.k = "new" -> PNew
           [] Ev.k = "add" -> PAdd
           [] Ev.k = "added" -> PAdded
           [] Ev.k = "start" -> PStart
           [] Ev.k = "end" /\ "id" \in DOMAIN Ev -> PEnd
           [] Ev.k = "resize" -> PResize
           [] Ev.k = "resized" -> PResized
           [] Ev.k = "size" -> PSize
           [] Ev.k = "quiet" -> PQuiet
           [] Ev.k = "destroy" -> PDestroy
           [] Ev.k = "gone" -> PGone
           [] Ev.k = "end" -> s.over /\ Ev.left = 0 /\ UNCHANGED s
           [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Tokens.                                                                    *)
TInit == [n |-> 0, held |-> {}, want |-> {}, over |-> FALSE]
TStep == CASE Ev.k = "tokens" -> s' = [s EXCEPT !.n = Ev.n]
           [] Ev.k = "want" -> s' = [s EXCEPT !.want = @ \cup {Ev.f}]
           [] Ev.k = "got" -> /\ Ev.f \in s.want /\ Ev.t \in (0..(s.n - 1)) \ s.held
                              /\ s' = [s EXCEPT !.want = @ \ {Ev.f}, !.held = @ \cup {Ev.t}]
           [] Ev.k = "give" -> Ev.t \in s.held /\ s' = [s EXCEPT !.held = @ \ {Ev.t}]
           [] Ev.k = "quiet" -> (s.want # {} => Cardinality(s.held) = s.n) /\ UNCHANGED s
           [] Ev.k = "gone" -> s.held = {} /\ s.want = {} /\ s' = [s EXCEPT !.over = TRUE]
           [] Ev.k = "end" -> s.over /\ Ev.left = 0 /\ UNCHANGED s
           [] OTHER -> FALSE

Init == /\ t \in 1..Len(Traces) /\ l = 1
        /\ s = CASE Kind = "queue" -> QInit [] Kind = "pool" -> PInit [] OTHER -> TInit
Step == CASE Kind = "queue" -> QStep [] Kind = "pool" -> PStep [] OTHER -> TStep
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Next == \/ Done
        \/ l <= Len(Traces[t].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
