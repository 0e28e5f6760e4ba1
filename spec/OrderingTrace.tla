---------------------------- MODULE OrderingTrace ----------------------------
(* Recorded histories and results against Orderings.tla.                      *)
EXTENDS Orderings, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, p, G, pr
vars == <<t, l, p, G, pr>>
T == Traces[t]
Ev == T.ev[l]
None == <<>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ p = None /\ G = NoGraph /\ pr = [n |-> 0]

\* ------------------------------------------------ partitions
Says(q, st) ==
  LET Gs == Groups(q) IN
  /\ Len(st.gte) = Cardinality(Gs)
  /\ \A i \in 1..Len(st.gte) : /\ st.gte[i].g \in Gs
                               /\ Permutes(st.gte[i].e, Members(q, st.gte[i].g))
                               /\ i > 1 => st.gte[i - 1].g < st.gte[i].g
  /\ \A e \in 1..T.n : LET g == IF e \in DOMAIN q THEN q[e] ELSE -1 IN
                       st.etg[e] = g /\ st.id[e] = g /\ st.mem[e] = (g >= 0)
  /\ st.netg = Cardinality(DOMAIN q) /\ st.ne = st.netg /\ st.ng = Cardinality(Gs)
  /\ \A k \in -1..12 : st.size[k + 2] = Cardinality(Members(q, k))
  /\ st.min = IF Gs = {} THEN -1 ELSE MinOf(Gs)
GroupOp ==
  LET q == CASE Ev.op = "add" -> GAdd(p, Ev.e, Ev.g)
             [] Ev.op = "rem" -> GRemove(p, {Ev.e})
             [] Ev.op = "bulk" -> GRemove(p, Range(Ev.es))
             [] Ev.op = "rev" -> GReverse(p)
             [] Ev.op = "copy" -> p
             [] Ev.op = "clear" -> None
      ret == CASE Ev.op = "add" -> IF Ev.g >= 0 THEN 1 ELSE 0
               [] Ev.op = "rem" -> IF Ev.e \in DOMAIN p THEN 1 ELSE 0
               [] Ev.op = "bulk" -> Cardinality(Range(Ev.es) \cap DOMAIN p)
               [] OTHER -> 0
  IN /\ T.kind = "groups" /\ p' = q /\ Ev.ret = ret /\ Says(q, Ev.st) /\ UNCHANGED <<G, pr>>

\* ------------------------------------------------ graphs
GraphIs(H, a) ==
  /\ {a[i][1] : i \in 1..Len(a)} = H.V /\ Len(a) = Cardinality(H.V)
  /\ \A i \in 1..Len(a) : Permutes(a[i][2], Nbr(H, a[i][1]))
WGraphIs(H, a) ==
  /\ GraphIs(H, a)
  /\ \A i \in 1..Len(a) : /\ a[i][4] = H.vw[a[i][1]]
                          /\ \A j \in 1..Len(a[i][2]) : a[i][3][j] = H.w[{a[i][1], a[i][2][j]}]
\* a weighted graph, read from its listing
Listed(a) ==
  LET V == {a[i][1] : i \in 1..Len(a)}
      P == UNION {{<<i, j>> : j \in 1..Len(a[i][2])} : i \in 1..Len(a)}
      at(x) == CHOOSE i \in 1..Len(a) : a[i][1] = x
      E == {{a[x[1]][1], a[x[1]][2][x[2]]} : x \in P}
  IN [V |-> V, E |-> E,
      w |-> [e \in E |-> LET x == CHOOSE x \in P : {a[x[1]][1], a[x[1]][2][x[2]]} = e IN a[x[1]][3][x[2]]],
      vw |-> [v \in V |-> a[at(v)][4]]]
Edit ==
  /\ Ev.op \in {"av", "rv", "ae"}
  /\ LET H == CASE Ev.op = "av" -> AddV(G, Ev.a, Ev.w)
                [] Ev.op = "rv" -> RemoveV(G, Ev.a)
                [] Ev.op = "ae" -> AddE(G, Ev.a, Ev.b, Ev.w)
     IN /\ G' = H /\ GraphIs(H, Ev.g) /\ WGraphIs(H, Ev.wg)
        /\ Ev.ret = IF Ev.op = "rv" /\ Ev.a \notin G.V THEN 0 ELSE 1
Simple == [G EXCEPT !.E = {e \in G.E : Cardinality(e) = 2}]
Result ==
  /\ UNCHANGED G
  /\ CASE Ev.op = "iso" -> [order |-> Ev.order, k |-> Ev.k] = SetOrdering(Simple)
       [] Ev.op = "siso" -> [order |-> Ev.order, k |-> Ev.k] = StableOrdering(Simple, Ev.in)
       [] Ev.op = "forest" ->
            LET F == Listed(Ev.f) IN
            /\ F.V = G.V /\ F.vw = G.vw /\ WGraphIs(F, Ev.f)
            /\ Degree2Forest(G, F.E) /\ \A e \in F.E : F.w[e] = G.w[e]
       [] Ev.op = "slc" ->
            LET L == Linkage(G, Ev.m)
                a == Ascending(G.V) IN
            /\ Ev.sz = Len(a) /\ \A i \in 1..Len(a) : Ev.mem[i] = L[a[i]]
            /\ Ev.n = Cardinality({L[v] : v \in G.V})
       [] Ev.op = "cvc" ->
            LET M == Membership(G, Ev.c)
                a == Ascending(G.V) IN
            /\ CanonicalCentres(G, Ev, Ev.c)
            /\ Ev.sz = Len(a) /\ \A i \in 1..Len(a) : Ev.mem[i] = M[a[i]]
       [] Ev.op = "vis" ->
            \* camera f sees the eliminated blocks of the rows that start with one
            LET see == [f \in 1..Ev.nf |->
                          {Ev.rows[i][1] : i \in {i \in 1..Len(Ev.rows) :
                             Ev.rows[i][1] < Ev.ne /\ Ev.ne + f - 1 \in Range(Tail(Ev.rows[i]))}}]
                both(a, b) == Cardinality(see[a] \cap see[b]) IN
            /\ Len(Ev.vis) = Ev.nf /\ Len(Ev.g) = Ev.nf
            /\ \A f \in 1..Ev.nf :
                 /\ Permutes(Ev.vis[f], see[f])
                 /\ Permutes(Ev.g[f][1], {h - 1 : h \in {h \in 1..Ev.nf : h = f \/ both(f, h) > 0}})
                 /\ \A j \in 1..Len(Ev.g[f][1]) :
                      LET h == Ev.g[f][1][j] + 1 IN
                      Ev.g[f][2][j] = IF h = f THEN 1000 ELSE 1000 * both(f, h) * both(f, h)
                 /\ Ev.g[f][3] = 16
GraphOp ==
  /\ T.kind = "graph" /\ UNCHANGED <<p, pr>>
  /\ IF Ev.op = "graph"
     THEN \* after a history the graph is known; otherwise it starts here
          LET H == IF l > 1 THEN G ELSE Listed(Ev.w) IN
          G' = H /\ WGraphIs(H, Ev.w) /\ GraphIs([H EXCEPT !.E = {e \in H.E : Cardinality(e) = 2}], Ev.g)
     ELSE Edit \/ (Ev.op \notin {"av", "rv", "ae"} /\ Result)

\* ------------------------------------------------ problems
\* pr: the problem and the current order of its blocks and residual blocks
Problem == /\ Ev.op = "problem" /\ G' = Hessian(Ev.c, Ev.r)
           /\ pr' = [n |-> Ev.n, c |-> Ev.c, r |-> Ev.r, po |-> [i \in 1..Ev.n |-> i],
                     rs |-> [i \in 1..Len(Ev.r) |-> i]]
\* the free blocks by a greedy search, then the constant ones
SchurOrder(order, k) ==
  LET n == Cardinality(G.V) IN
  /\ SomeOrdering(G, SubSeq(order, 1, n), k)
  /\ SubSeq(order, n + 1, Len(order)) = ConstantsOf(pr.c, pr.po)
RsSorted(rs, order, k) ==
  /\ Permutes(rs, 1..Len(pr.r))
  /\ \A i \in 1..Len(rs) - 1 : Bucket(pr.r[rs[i]], order, k) <= Bucket(pr.r[rs[i + 1]], order, k)
Reorder ==
  LET ids == {Ev.g[b] : b \in 1..pr.n}
      first == {b \in 1..pr.n : Ev.g[b] = MinOf(ids)}
      asked == ByGroup(pr.po, Ev.g, ids)
      own == StableOrdering(G, pr.po)
      single == Cardinality(ids) = 1
      k == IF single THEN own.k ELSE Cardinality(first)
      legal == single \/ Independent(G, first)
      want == IF single THEN own.order ELSE asked
  IN /\ Ev.before = pr.po /\ Ev.ok = legal /\ Ev.err = ~legal
     /\ IF legal
        THEN /\ IF Ev.sparse = 1
                THEN /\ SubSeq(Ev.after, 1, k) = SubSeq(want, 1, k) /\ Permutes(Ev.after, 1..pr.n)
                ELSE Ev.after = want
             /\ Ev.idx = [i \in 1..pr.n |-> i]
             /\ RsSorted(Ev.rs, Ev.after, k)
             \* the ordering that was used
             /\ Ev.og = IF single
                        THEN [b \in 1..pr.n |-> IF b \in Range(SubSeq(want, 1, k)) THEN 0 ELSE 1]
                        ELSE Ev.g
             /\ pr' = [pr EXCEPT !.po = Ev.after, !.rs = Ev.rs]
        ELSE Ev.after = pr.po /\ Ev.rs = pr.rs /\ UNCHANGED pr
Apply ==
  LET some == {Ev.g[b] : b \in {x \in 1..pr.n : Ev.g[x] >= 0}}
      legal == Ev.foreign = 0 /\ \A b \in 1..pr.n : Ev.g[b] >= 0
  IN /\ Ev.before = pr.po /\ Ev.ok = legal /\ Ev.err = ~legal
     /\ IF legal THEN Ev.after = ByGroup(pr.po, Ev.g, some)
        ELSE Ev.after = pr.po
     /\ pr' = [pr EXCEPT !.po = Ev.after]
Part ==
  LET top == SubSeq(Ev.rs, 1, Ev.top)
      bottom == SubSeq(Ev.rs, Ev.top + 1, Len(Ev.rs)) IN
  /\ Permutes(Ev.rs, 1..Len(pr.r)) /\ Range(bottom) = Range(Ev.bottom)
  /\ Range(top) \cap Range(Ev.bottom) = {}
  /\ pr' = [pr EXCEPT !.rs = Ev.rs]
Ask ==
  CASE Ev.op = "hessian" -> GraphIs(G, Ev.g)
    [] Ev.op = "schur" -> SchurOrder(Ev.order, Ev.k)
    [] Ev.op = "stable" ->
         LET o == StableOrdering(G, FreeOf(pr.c, pr.po)) IN
         Ev.order = o.order \o ConstantsOf(pr.c, pr.po) /\ Ev.k = o.k
    [] Ev.op = "recursive" ->
         /\ Ev.ne = pr.n /\ \A b \in 1..pr.n : Ev.g[b] >= 0
         /\ Rounds(G, Ev.g)
         /\ Ev.sizes = [k \in 1..MaxOf(Range(Ev.g)) + 1 |-> Cardinality({b \in 1..pr.n : Ev.g[b] = k - 1})]
    [] Ev.op = "indep" ->
         \* at most one block of the set, constant or not, in each residual
         Ev.ret = \A i \in 1..Len(pr.r) : Cardinality(Range(pr.r[i]) \cap Range(Ev.s)) <= 1
ProblemOp ==
  /\ T.kind = "problem" /\ UNCHANGED p
  /\ IF Ev.op = "problem" THEN Problem
     ELSE /\ UNCHANGED G
          /\ CASE Ev.op = "part" -> Part
               [] Ev.op = "apply" -> Apply
               [] Ev.op = "reorder" -> Reorder
               [] Ev.op = "chol" -> /\ Ev.ok /\ Permutes(Ev.after, 1..pr.n) /\ Ev.rs = pr.rs
                                    /\ pr' = [pr EXCEPT !.po = Ev.after]
               [] OTHER -> Ask /\ UNCHANGED pr
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == \/ Done
        \/ l <= Len(T.ev) /\ (GroupOp \/ GraphOp \/ ProblemOp) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
