--------------------------- MODULE MC_TrustRegion ---------------------------
(* Exhaustive check of TrustRegion.tla: every assignment of costs to points,  *)
(* every pattern of failing evaluations, acceptances and callback answers,    *)
(* also non-monotonic ones.                                                   *)
EXTENDS TrustRegion
CONSTANTS Points, Costs, MaxIt, MaxInv
VARIABLES
  cost,    \* point -> cost
  bad,     \* points where derivatives cannot be evaluated
  seen     \* accepted points (and the start)
mvars == <<trvars, cost, bad, seen>>
Lt(a, b) == a < b
Never(a, b) == FALSE

MInit == /\ TRInit /\ cost \in [Points -> Costs] /\ bad \in SUBSET Points /\ seen = {}
Same == UNCHANGED <<cost, bad>>
MNext ==
  \/ \E p \in Points : p \notin bad /\ StartOk(p, cost[p]) /\ Same /\ seen' = {p}
  \/ StartFail /\ Same /\ UNCHANGED seen
  \/ Report /\ Same /\ UNCHANGED seen
  \/ \E o \in {"USER_SUCCESS", "USER_FAILURE", "CONVERGENCE"} : StopCalled(o) /\ Same /\ UNCHANGED seen
  \/ k = MaxIt /\ StopCalled("NO_CONVERGENCE") /\ Same /\ UNCHANGED seen
  \/ k < MaxIt /\ \E p \in Points : Try(p) /\ Same /\ UNCHANGED seen
  \/ \E p \in Points : Retry(p) /\ Same /\ UNCHANGED seen
  \/ k < MaxIt /\ InvalidStep(MaxInv) /\ Same /\ UNCHANGED seen
  \/ TooManyInvalid(MaxInv) /\ Same /\ UNCHANGED seen
  \/ Converge /\ Same /\ UNCHANGED seen
  \/ cand \notin bad /\ Accept(cost[cand]) /\ Same /\ seen' = seen \union {cand}
  \/ cand \in bad /\ AcceptFail /\ Same /\ UNCHANGED seen
  \/ Reject /\ Same /\ UNCHANGED seen
MSpec == MInit /\ [][MNext]_mvars

\* the point left behind is the best of all accepted ones, and evaluates
BestOfSeen == Usable(out) => /\ best \in seen
                             /\ \A p \in seen : cost[best] <= cost[p]
                             /\ best \notin bad
NeverTooMany == k <= MaxIt /\ inv < MaxInv + 1
StartKept == ~Usable(out) /\ out # "none" => FinalPoint(99) = 99
=============================================================================
