---------------------------- MODULE ParallelLoop ----------------------------
(* What a parallel loop promises its caller, for one loop.                    *)
(* A loop is a record: f the calling thread, s..e-1 the range, nt the number  *)
(* of threads, mb the smallest piece allowed, tid whether the function is     *)
(* given a thread id, todo the indices nobody has begun, run the pieces being *)
(* executed now, open until the call returns.                                 *)
EXTENDS Integers, FiniteSets, Sequences

LMin(a, b) == IF a < b THEN a ELSE b
NewLoop(f, s, e, nt, mb, tid) ==
  [f |-> f, s |-> s, e |-> e, nt |-> nt, mb |-> mb, tid |-> tid,
   todo |-> s..(e - 1), run |-> {}, open |-> TRUE]

\* With one thread, or one index, the caller does everything itself.
Alone(L) == L.nt = 1 \/ L.e - L.s = 1

\* thread f may begin lo..hi-1 under the id t
MayBegin(L, f, t, lo, hi) ==
  /\ L.open
  /\ lo < hi /\ lo..(hi - 1) \subseteq L.todo
  /\ hi - lo >= LMin(L.mb, L.e - L.s)
  /\ Cardinality(L.run) < L.nt
  /\ L.tid => t \in 0..(L.nt - 1) /\ \A r \in L.run : r.t # t
  /\ Alone(L) => f = L.f
Begin(L, f, t, lo, hi) ==
  [L EXCEPT !.todo = @ \ (lo..(hi - 1)), !.run = @ \cup {[f |-> f, t |-> t, lo |-> lo]}]

MayEnd(L, f, t, lo) == [f |-> f, t |-> t, lo |-> lo] \in L.run
End(L, f, t, lo) == [L EXCEPT !.run = @ \ {[f |-> f, t |-> t, lo |-> lo]}]

MayReturn(L, f) == L.open /\ L.f = f /\ L.todo = {} /\ L.run = {}
Return(L) == [L EXCEPT !.open = FALSE]

-----------------------------------------------------------------------------
(* Splitting a range by cumulative cost: cum[i] is the cost of the indices up *)
(* to and including i (counting from 0).                                      *)
CostOf(cum, lo, hi) == IF hi <= lo THEN 0
                       ELSE cum[hi] - (IF lo = 0 THEN 0 ELSE cum[lo])
\* the fewest pieces of cost at most c that cover lo..e-1 (a million if none do)
RECURSIVE Pieces(_, _, _, _)
Pieces(cum, lo, e, c) ==
  IF lo >= e THEN 0
  ELSE LET ok == {h \in (lo + 1)..e : CostOf(cum, lo, h) <= c}
       IN  IF ok = {} THEN 1000000
           ELSE 1 + Pieces(cum, CHOOSE h \in ok : \A g \in ok : g <= h, e, c)
\* p (a sequence of boundaries) splits s..e-1 in at most max pieces, and no
\* other such split has a smaller largest cost
GoodSplit(cum, s, e, max, p) ==
  /\ Len(p) >= 2 /\ Len(p) <= max + 1 /\ p[1] = s /\ p[Len(p)] = e
  /\ \A i \in 1..(Len(p) - 1) : p[i] < p[i + 1]
  /\ LET costs == {CostOf(cum, p[i], p[i + 1]) : i \in 1..(Len(p) - 1)}
         worst == CHOOSE c \in costs : \A d \in costs : d <= c
     IN  worst = 0 \/ Pieces(cum, s, e, worst - 1) > max

\* ij lists the pairs i <= j < n, each once
Triangle(n, ij) ==
  /\ Len(ij) = (n * (n + 1)) \div 2
  /\ {ij[k] : k \in 1..Len(ij)} = {<<i, j>> \in (0..(n - 1)) \X (0..(n - 1)) : i <= j}
=============================================================================
