------------------------------ MODULE Orderings ------------------------------
(* Ordered partitions, graphs, and the orderings and clusterings computed     *)
(* from them.  No variables: the operators say what the operations do         *)
(* (partitions, graph edits) or which results are allowed (algorithms).       *)
EXTENDS Integers, Sequences, FiniteSets

\* ---------------------------------------------------- ordered partitions
\* p: a function from the elements present to their group (>= 0)
Groups(p) == {p[e] : e \in DOMAIN p}
Members(p, g) == {e \in DOMAIN p : p[e] = g}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
GAdd(p, e, g) == IF g < 0 THEN p
                 ELSE [x \in DOMAIN p \cup {e} |-> IF x = e THEN g ELSE p[x]]
GRemove(p, E) == [x \in DOMAIN p \ E |-> p[x]]
\* the last group keeps its id, the others follow it, in reverse order
GReverse(p) == [x \in DOMAIN p |-> MaxOf(Groups(p)) + Cardinality({h \in Groups(p) : h > p[x]})]

\* ---------------------------------------------------- graphs
\* [V |-> vertices, E |-> set of {u, v}, w |-> edge -> weight, vw |-> vertex -> weight]
NoGraph == [V |-> {}, E |-> {}, w |-> <<>>, vw |-> <<>>]
Nbr(G, v) == {u \in G.V : {u, v} \in G.E}
Deg(G, v) == Cardinality(Nbr(G, v))
Put(f, k, x) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN x ELSE f[i]]
Cut(f, S) == [i \in DOMAIN f \ S |-> f[i]]
AddV(G, v, x) == [G EXCEPT !.V = @ \cup {v}, !.vw = Put(@, v, x)]
RemoveV(G, v) == IF v \notin G.V THEN G
                 ELSE LET I == {e \in G.E : v \in e} IN
                      [V |-> G.V \ {v}, E |-> G.E \ I, w |-> Cut(G.w, I), vw |-> Cut(G.vw, {v})]
AddE(G, u, v, x) == [G EXCEPT !.E = @ \cup {{u, v}}, !.w = Put(@, {u, v}, x)]

Range(s) == {s[i] : i \in 1..Len(s)}
Permutes(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S
Independent(G, S) == \A u, v \in S : u # v => {u, v} \notin G.E
MaximalIndependent(G, S) == Independent(G, S) /\ \A v \in G.V \ S : \E u \in S : {u, v} \in G.E

\* The greedy search: vertices in the order q, each taken unless a
\* neighbour already was; then the ones passed over, in the same order.
RECURSIVE Greedy(_, _, _, _)
Greedy(G, q, taken, left) ==
  IF q = <<>> THEN [order |-> taken \o left, k |-> Len(taken)]
  ELSE IF Nbr(G, q[1]) \cap Range(taken) = {} THEN Greedy(G, Tail(q), Append(taken, q[1]), left)
  ELSE Greedy(G, Tail(q), taken, Append(left, q[1]))
\* sorted by degree, and by the position in `in` among equals
RECURSIVE ByDegree(_, _)
ByDegree(G, in) ==
  IF in = <<>> THEN <<>>
  ELSE LET i == CHOOSE i \in 1..Len(in) :
                  /\ \A j \in 1..Len(in) : Deg(G, in[i]) <= Deg(G, in[j])
                  /\ \A j \in 1..i - 1 : Deg(G, in[j]) > Deg(G, in[i])
       IN <<in[i]>> \o ByDegree(G, SubSeq(in, 1, i - 1) \o SubSeq(in, i + 1, Len(in)))
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o Ascending(S \ {MinOf(S)})
StableOrdering(G, in) == Greedy(G, ByDegree(G, in), <<>>, <<>>)
SetOrdering(G) == StableOrdering(G, Ascending(G.V))
\* any result of the greedy search by increasing degree, ties broken freely
SortedDeg(G, s) == \A i \in 1..Len(s) - 1 : Deg(G, s[i]) <= Deg(G, s[i + 1])
SomeOrdering(G, order, k) ==
  /\ Permutes(order, G.V) /\ k \in 0..Len(order)
  /\ SortedDeg(G, SubSeq(order, 1, k)) /\ SortedDeg(G, SubSeq(order, k + 1, Len(order)))
  /\ LET S == Range(SubSeq(order, 1, k)) IN
     /\ Independent(G, S)
     /\ \A v \in G.V \ S : \E u \in S : {u, v} \in G.E /\ Deg(G, u) <= Deg(G, v)

\* reachability by the edges in F
RECURSIVE Reach(_, _)
Reach(F, S) == LET T == S \cup UNION {e \in F : e \cap S # {}} IN IF T = S THEN S ELSE Reach(F, T)
Joined(F, u, v) == v \in Reach(F, {u})
Acyclic(F) == \A e \in F : Cardinality(e) = 2 /\
                \A u, v \in e : u # v => ~Joined(F \ {e}, u, v)
DegIn(F, v) == Cardinality({e \in F : v \in e})
\* F is what Kruskal's algorithm with the degree bound yields, for some
\* order of equal weights.
Degree2Forest(G, F) ==
  /\ F \subseteq G.E /\ Acyclic(F) /\ \A v \in G.V : DegIn(F, v) <= 2
  /\ \A e \in {x \in G.E : Cardinality(x) = 2} \ F :
       LET H == {f \in F : G.w[f] >= G.w[e]} IN
       \/ \E v \in e : DegIn(H, v) = 2
       \/ \E u, v \in e : u # v /\ Joined(H, u, v)
\* Components of the edges at least as strong as m, named by their least vertex.
Linkage(G, m) == LET F == {e \in G.E : G.w[e] >= m} IN
                 [v \in G.V |-> MinOf(Reach(F, {v}))]

\* Canonical views, all weights in 16ths and all options in quarters
Invalid == 1000000
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
EW(G, u, v) == IF {u, v} \in G.E THEN G.w[{u, v}] ELSE 0
\* the similarity of v to the most similar of the centres so far
Best(G, C, v) == MaxOf({0} \cup {EW(G, c, v) : c \in Range(C)})
Gain(G, o, C, v) ==
  o.vs * G.vw[v]
  + 4 * SumOf([u \in Nbr(G, v) |-> IF EW(G, u, v) > Best(G, C, u) THEN EW(G, u, v) - Best(G, C, u) ELSE 0], Nbr(G, v))
  - 16 * o.sp
  - o.sim * SumOf([i \in 1..Len(C) |-> EW(G, C[i], v)], 1..Len(C))
Valid(G) == {v \in G.V : G.vw[v] # Invalid}
CanonicalCentres(G, o, c) ==
  /\ \A i \in 1..Len(c) :
       LET C == SubSeq(c, 1, i - 1)
           left == Valid(G) \ Range(C) IN
       /\ c[i] \in left
       /\ \A v \in left : Gain(G, o, C, v) <= Gain(G, o, C, c[i])
       /\ Gain(G, o, C, c[i]) > 0 \/ i - 1 < o.mv
  /\ \/ Valid(G) \ Range(c) = {}
     \/ Len(c) >= o.mv /\ \A v \in Valid(G) \ Range(c) : Gain(G, o, c, v) <= 0
\* each vertex belongs to the first of the centres most similar to it
Membership(G, c) ==
  [v \in G.V |->
     IF Best(G, c, v) = 0 THEN -1
     ELSE MinOf({i \in 1..Len(c) : EW(G, c[i], v) = Best(G, c, v)}) - 1]

\* ---------------------------------------------------- problems
\* c: which blocks are constant; r: the blocks of each residual block
Hessian(c, r) ==
  LET V == {b \in 1..Len(c) : c[b] = 0} IN
  [V |-> V, E |-> {{u, v} : <<u, v>> \in {p \in V \X V : p[1] # p[2] /\
                     \E i \in 1..Len(r) : {p[1], p[2]} \subseteq Range(r[i])}},
   w |-> <<>>, vw |-> <<>>]
ConstantsOf(c, order) == SelectSeq(order, LAMBDA b : c[b] # 0)
FreeOf(c, order) == SelectSeq(order, LAMBDA b : c[b] = 0)
\* blocks by group, keeping the order they had inside a group
RECURSIVE ByGroup(_, _, _)
ByGroup(before, g, ids) ==
  IF ids = {} THEN <<>>
  ELSE SelectSeq(before, LAMBDA b : g[b] = MinOf(ids)) \o ByGroup(before, g, ids \ {MinOf(ids)})
\* the bucket of a residual block: its first eliminated block
Bucket(blocks, order, k) ==
  MinOf({k + 1} \cup {i \in 1..Len(order) : order[i] \in Range(blocks) /\ i <= k})
\* each round takes a maximal independent set of what is left
Rounds(G, g) ==
  \A k \in 0..MaxOf({g[b] : b \in G.V}) :
    LET left == {b \in G.V : g[b] >= k}
        H == [G EXCEPT !.V = left, !.E = {e \in G.E : e \subseteq left}]
    IN {b \in left : g[b] = k} # {} /\ MaximalIndependent(H, {b \in left : g[b] = k})
=============================================================================
