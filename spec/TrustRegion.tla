----------------------------- MODULE TrustRegion -----------------------------
(* The trust region loop as its observers see it: which points are tried,     *)
(* accepted or rejected, what is reported to the callbacks, when the loop     *)
(* stops, and what is left in the user's parameters.  Points are abstract;    *)
(* costs are ordered by CLt.  MC_TrustRegion.tla checks it exhaustively;      *)
(* TrustRegionTrace.tla binds it to recorded solves, adding the numbers.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS CLt(_, _),
  CTie(_, _)  \* costs too close to tell apart (rounding); never in the design

VARIABLES
  ph,     \* "start" "report" "called" "step" "trial" "over"
  x, xc,  \* current point and its cost
  best, bestc,
  cand,   \* the trial point
  k,      \* iteration last begun
  ok,     \* the iteration being reported ended in an accepted point
  ns, nu, \* successful and unsuccessful iterations
  inv,    \* consecutive invalid steps
  any,    \* some step was accepted
  out     \* "none" or the termination type
trvars == <<ph, x, xc, best, bestc, cand, k, ok, ns, nu, inv, any, out>>

Usable(o) == o \in {"CONVERGENCE", "NO_CONVERGENCE", "USER_SUCCESS"}
NoPoint == 0

TRInit == /\ ph = "start" /\ x = NoPoint /\ xc = NoPoint /\ best = NoPoint /\ bestc = NoPoint
          /\ cand = NoPoint /\ k = 0 /\ ok = FALSE /\ ns = 0 /\ nu = 0 /\ inv = 0
          /\ any = FALSE /\ out = "none"

Over(o) == ph' = "over" /\ out' = o

\* the first evaluation, with derivatives, at the projected starting point
StartOk(p, c) ==
  /\ ph = "start" /\ ph' = "report" /\ x' = p /\ xc' = c /\ ok' = TRUE
  /\ UNCHANGED <<best, bestc, cand, k, ns, nu, inv, any, out>>
StartFail == /\ ph = "start" /\ Over("FAILURE")
             /\ UNCHANGED <<x, xc, best, bestc, cand, k, ok, ns, nu, inv, any>>

\* an iteration ends: the best point is brought up to date before callbacks run
Improves == best = NoPoint \/ CLt(xc, bestc)
CloseCall == best # NoPoint /\ CTie(xc, bestc)
Report ==
  /\ ph = "report" /\ ph' = "called"
  /\ ns' = ns + (IF ok THEN 1 ELSE 0) /\ nu' = nu + (IF ok THEN 0 ELSE 1)
  /\ \/ ok /\ (Improves \/ CloseCall) /\ best' = x /\ bestc' = xc
     \/ ~(ok /\ Improves /\ ~CloseCall) /\ UNCHANGED <<best, bestc>>
  /\ UNCHANGED <<x, xc, cand, k, ok, inv, any, out>>
\* callbacks asked to stop, or a criterion checked after them holds
StopCalled(o) == /\ ph = "called" /\ Over(o)
                 /\ UNCHANGED <<x, xc, best, bestc, cand, k, ok, ns, nu, inv, any>>
\* a step was computed and its end point evaluated
TryFrom(phs, p) == /\ ph \in phs /\ ph' = "trial" /\ cand' = p /\ inv' = 0
                   /\ UNCHANGED <<x, xc, best, bestc, k, ok, ns, nu, any, out>>
Try(p) == TryFrom({"called"}, p)
Retry(p) == TryFrom({"trial"}, p)             \* line search along the step
\* no usable step
InvalidStep(max) ==
  /\ ph = "called" /\ inv + 1 < max
  /\ ph' = "report" /\ inv' = inv + 1 /\ ok' = FALSE /\ k' = k + 1
  /\ UNCHANGED <<x, xc, best, bestc, cand, ns, nu, any, out>>
TooManyInvalid(max) == /\ ph = "called" /\ inv + 1 >= max /\ Over("FAILURE")
                       /\ UNCHANGED <<x, xc, best, bestc, cand, k, ok, ns, nu, inv, any>>
\* the trial point is close enough in value or in position
Converge == /\ ph = "trial" /\ Over("CONVERGENCE")
            /\ UNCHANGED <<x, xc, best, bestc, cand, k, ok, ns, nu, inv, any>>
Accept(c) == /\ ph = "trial" /\ ph' = "report" /\ x' = cand /\ xc' = c /\ ok' = TRUE
             /\ any' = TRUE /\ k' = k + 1
             /\ UNCHANGED <<best, bestc, cand, ns, nu, inv, out>>
AcceptFail == /\ ph = "trial" /\ Over("FAILURE")
              /\ UNCHANGED <<x, xc, best, bestc, cand, k, ok, ns, nu, inv, any>>
Reject == /\ ph = "trial" /\ ph' = "report" /\ ok' = FALSE /\ k' = k + 1
          /\ UNCHANGED <<x, xc, best, bestc, cand, ns, nu, inv, any, out>>

\* what the user finds in the parameters at the end; start is what was there
FinalPoint(start) == IF Usable(out) THEN best ELSE start

\* ---------------------------------------------------------- invariants
Coherent ==
  /\ ph \in {"called", "step", "trial"} => ns + nu = k + 1
  /\ ph = "report" => ns + nu = k
  /\ ph \notin {"start", "over"} => x # NoPoint
  /\ ns >= 1 => best # NoPoint
  /\ Usable(out) => best # NoPoint
  /\ best # NoPoint /\ x # NoPoint /\ ph = "called" => ~CLt(xc, bestc) \/ CTie(xc, bestc)
  /\ out # "none" <=> ph = "over"
=============================================================================
