------------------------------ MODULE WorkQueue ------------------------------
(* The concurrent queue as its users see it, and what a history of calls and  *)
(* returns says about it.  A configuration is one possible state of the queue *)
(* consistent with the history: q its contents, w whether Wait blocks on an   *)
(* empty queue, res the results of the calls that have taken effect but not   *)
(* returned (a function from threads).                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == <<FALSE, -7>>
Effect(c, th, op, v) ==
  CASE op = "push"   -> {[c EXCEPT !.q = Append(@, v), !.res = @ @@ (th :> <<TRUE, -7>>)]}
    [] op = "stop"   -> {[c EXCEPT !.w = FALSE, !.res = @ @@ (th :> <<TRUE, -7>>)]}
    [] op = "enable" -> {[c EXCEPT !.w = TRUE, !.res = @ @@ (th :> <<TRUE, -7>>)]}
    [] OTHER ->
         IF c.q # <<>>
         THEN {[c EXCEPT !.q = Tail(@), !.res = @ @@ (th :> <<TRUE, Head(c.q)>>)]}
         ELSE IF op = "pop" \/ ~c.w THEN {[c EXCEPT !.res = @ @@ (th :> Nothing)]}
         ELSE {}   \* Wait goes on waiting
=============================================================================
