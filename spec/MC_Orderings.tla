----------------------------- MODULE MC_Orderings -----------------------------
(* The specification itself: every partition reached from the empty one by a   *)
(* few operations, and every graph (with two edge weights) on N vertices.       *)
EXTENDS Orderings, TLC
CONSTANTS N, Elems, MaxG
VARIABLES p, G
vars == <<p, G>>
V == 1..N
Pairs == {{u, v} : <<u, v>> \in {x \in V \X V : x[1] # x[2]}}
Init == /\ p = <<>>
        /\ \E E \in SUBSET Pairs : \E H \in SUBSET E :
             G = [V |-> V, E |-> E, w |-> [e \in E |-> IF e \in H THEN 2 ELSE 1], vw |-> [v \in V |-> v]]
\* partitions evolve only beside the empty graph
Next == /\ G.E = {} /\ UNCHANGED G
        /\ \/ \E e \in Elems, g \in -1..MaxG : p' = GAdd(p, e, g)
           \/ \E S \in SUBSET Elems : p' = GRemove(p, S)
           \/ p # <<>> /\ MaxOf(Groups(p)) < MaxG + 2 /\ p' = GReverse(p)
Spec == Init /\ [][Next]_vars
ReverseReverses ==
  p # <<>> => LET q == GReverse(p) IN
    /\ \A e, f \in DOMAIN p : (p[e] < p[f]) <=> (q[e] > q[f])
    /\ Cardinality(Groups(q)) = Cardinality(Groups(p)) /\ MinOf(Groups(q)) = MaxOf(Groups(p))
Partition == \A e \in DOMAIN p : p[e] >= 0
\* the greedy search is what its properties say
GreedyGood ==
  /\ LET o == SetOrdering(G) IN
     /\ SomeOrdering(G, o.order, o.k) /\ MaximalIndependent(G, Range(SubSeq(o.order, 1, o.k)))
  /\ LET in == <<2, 1>> \o [i \in 1..N - 2 |-> i + 2]
         o == StableOrdering(G, in) IN SomeOrdering(G, o.order, o.k)
\* some forest always qualifies, and all that do are forests of paths
ForestGood ==
  LET Fs == {F \in SUBSET G.E : Degree2Forest(G, F)} IN
  /\ Fs # {}
  /\ \A F \in Fs : Cardinality(F) <= N - 1
\* linkage is a coarsening as the threshold falls
LinkageGood ==
  /\ Linkage(G, 3) = [v \in V |-> v]
  /\ \A u, v \in V : Linkage(G, 2)[u] = Linkage(G, 2)[v] => Linkage(G, 1)[u] = Linkage(G, 1)[v]
Inv == Partition /\ ReverseReverses /\ GreedyGood /\ ForestGood /\ LinkageGood
=============================================================================
