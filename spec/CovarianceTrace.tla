--------------------------- MODULE CovarianceTrace ---------------------------
(* Histories of real Covariance objects against Covariance.tla.  The data are *)
(* integers, so the Jacobian and its rank are exact; the (pseudo-)inverse is  *)
(* computed in doubles, and values are compared where it is well conditioned. *)
EXTENDS Covariance, Dbl, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, P, o, S, K
\* P problem, o options, S = [x, c, f], K what was computed
vars == <<t, l, P, o, S, K>>
Ev == Traces[t].ev[l]
Fresh == [st |-> "fresh"]
Init == t \in 1..Len(Traces) /\ l = 1 /\ P = <<>> /\ o = <<>> /\ S = <<>> /\ K = Fresh

\* ------------------------------------------------------------- expectation
Ratio(ev, i) == DDiv(ev[i], ev[Len(ev)])
Nonzero(ev, rk) == (Len(ev) - rk + 1)..Len(ev)
Clear(ev, rk, mrc) ==
  \A i \in Nonzero(ev, rk) :
     /\ DLt(DLit("1e-7"), Ratio(ev, i))
     /\ DLt(Ratio(ev, i), DMul(DLit("0.95"), mrc)) \/ DLt(DMul(DLit("1.05"), mrc), Ratio(ev, i))
\* how many eigenvalues are kept, or -1 if the computation is refused
Keep(ev, rk) ==
  LET n == Len(ev)
      big == Cardinality({i \in Nonzero(ev, rk) : ~DLt(Ratio(ev, i), o.mrc)})
  IN IF o.alg = "qr" THEN (IF rk < n THEN 0 - 1 ELSE n)
     ELSE IF o.nsr < 0 THEN big
     ELSE LET k == IF n > o.nsr THEN n - o.nsr ELSE 0 IN IF k > big THEN 0 - 1 ELSE k
\* is the subspace that is dropped determined?
Gap(ev, k) == k <= 0 \/ k >= Len(ev) \/ DLt(ev[Len(ev) - k], DMul(DLit("0.999"), ev[Len(ev) - k + 1]))
Pairs(e) == IF e.kind = "pairs" THEN [i \in 1..Len(e.req) |-> <<e.req[i][1] + 1, e.req[i][2] + 1>>]
            ELSE LET n == Len(e.req) IN
                 FlattenSeq([i \in 1..n |-> [j \in 1..(n - i + 1) |-> <<e.req[i] + 1, e.req[i + j - 1] + 1>>]])
Distinct(s) == Cardinality(Range(s)) = Len(s)
Computed(e) ==
  LET cst == Fixed(P, S.c)
      req == Range(Pairs(e))
      J == Jacobian(P, S.x, o.loss, cst)
      act == Free_(P, cst)
      n == Sum([i \in 1..Len(act) |-> P.b[act[i]].m])
      ev == MEig(J, n)
      rk == MRank(J, n)
      clear == Clear(ev, rk, IF o.alg = "svd" THEN o.mrc ELSE DLit("1e-300"))
      k == Keep(ev, rk)
      trivial == \A p \in req : p[1] \in cst \/ p[2] \in cst
      fails(free) == \E w \in 1..Len(P.r) : S.f[w] # 0 /\ (free => \E z \in 1..Len(P.r[w].b) : P.r[w].b[z] + 1 \notin cst)
      may == IF trivial THEN (IF clear /\ k >= 0 /\ ~fails(FALSE) /\ o.alg # "none" THEN {TRUE} ELSE BOOLEAN)
             ELSE IF o.alg = "none" \/ fails(TRUE) THEN {FALSE}
             ELSE IF rk < n /\ o.alg = "qr" THEN {FALSE}
             ELSE IF ~clear THEN BOOLEAN
             ELSE IF fails(FALSE) /\ k >= 0 THEN BOOLEAN
             ELSE {k >= 0}
  IN /\ e.ok \in may
     /\ K' = IF ~e.ok THEN [st |-> "failed"]
             ELSE LET cmp == ~trivial /\ clear /\ k >= 0 /\ Gap(ev, k)
                      C == IF cmp THEN MPinv(J, n, k) ELSE <<>>
                  IN [st |-> "computed", req |-> req, cst |-> cst, cmp |-> cmp, C |-> C,
                      big |-> VMaxAbs(FlattenSeq(C)), pj |-> [i \in 1..NB(P) |-> PlusJ(P, S.x, i)],
                      row |-> [i \in 1..NB(P) |-> Sum([j \in 1..(i - 1) |-> IF j \in cst THEN 0 ELSE P.b[j].m])]]

\* ------------------------------------------------------------------ lookup
Dim(i, amb) == IF amb THEN P.b[i].n ELSE P.b[i].m
Asked(a, b) == <<a, b>> \in K.req \/ <<b, a>> \in K.req
Zeroed(a, b) == a \in K.cst \/ b \in K.cst
Sub(a, b) == [i \in 1..P.b[a].m |-> SubSeq(K.C[K.row[a] + i], K.row[b] + 1, K.row[b] + P.b[b].m)]
\* PJ_a C_ab PJ_b'
Lift(a, b) ==
  LET C == Sub(a, b)
      half == [i \in 1..P.b[a].m |-> MV(K.pj[b], C[i])]       \* C PJ_b'
  IN [u \in 1..P.b[a].n |-> FoldLeft(LAMBDA acc, i : VAdd(acc, VScale(K.pj[a][u][i], half[i])),
                                     [v \in 1..P.b[b].n |-> 0], [i \in 1..P.b[a].m |-> i])]
Expected(a, b, amb) == IF amb THEN Lift(a, b) ELSE Sub(a, b)
ZeroBlock(a, b, amb) == [i \in 1..Dim(a, amb) |-> [j \in 1..Dim(b, amb) |-> 0]]
Grants(a, b) == Zeroed(a, b) \/ Asked(a, b)
Tol == DMul(DLit("1e-5"), K.big)
\* m: the rows of a block as shown
BlockOk(a, b, amb, m) ==
  IF Zeroed(a, b) THEN \A i \in 1..Len(m) : VEq(m[i], ZeroBlock(a, b, amb)[i])
  ELSE IF ~K.cmp THEN TRUE ELSE VNear(FlattenSeq(m), FlattenSeq(Expected(a, b, amb)), DLit("0"), Tol)
Cut(v, r, c) == [i \in 1..r |-> SubSeq(v, (i - 1) * c + 1, i * c)]
Unchanged(e) == /\ e.st.same /\ e.st.x = S.x
                /\ \A i \in 1..NB(P) : e.st.c[i] = (S.c[i] \/ P.b[i].m = 0)
Got(e) ==
  IF K.st # "computed" THEN e.fatal
  ELSE LET a == e.a + 1 b == e.b + 1 IN
       /\ ~e.fatal /\ e.ok = Grants(a, b) /\ e.g
       /\ e.ok => BlockOk(a, b, e.amb, Cut(e.v, Dim(a, e.amb), Dim(b, e.amb)))
GotMatrix(e) ==
  IF K.st # "computed" THEN e.fatal
  ELSE LET ids == [i \in 1..Len(e.l) |-> e.l[i] + 1]
           at == [i \in 1..Len(ids) |-> Sum([j \in 1..(i - 1) |-> Dim(ids[j], e.amb)])]
           n == Sum([i \in 1..Len(ids) |-> Dim(ids[i], e.amb)])
           M == Cut(e.v, n, n)
           part(i, j) == [u \in 1..Dim(ids[i], e.amb) |-> SubSeq(M[at[i] + u], at[j] + 1, at[j] + Dim(ids[j], e.amb))]
       IN /\ ~e.fatal /\ e.g
          /\ e.ok = (\A i, j \in 1..Len(ids) : Grants(ids[i], ids[j]))
          /\ e.ok => \A i, j \in 1..Len(ids) : BlockOk(ids[i], ids[j], e.amb, part(i, j))

Shown(e) == IF S = <<>> THEN TRUE ELSE Unchanged(e)
Event(e) ==
  CASE e.ev = "new" -> P' = [b |-> e.b, r |-> e.r] /\ o' = e.o /\ S' = <<>> /\ K' = Fresh
    [] e.ev = "set" -> S' = [x |-> e.x, c |-> e.c, f |-> e.f] /\ UNCHANGED <<P, o, K>>
    [] e.ev = "compute" ->
         /\ UNCHANGED <<P, o, S>> /\ Shown(e)
         /\ IF ~Distinct(e.req) THEN e.fatal /\ UNCHANGED K
            ELSE ~e.fatal /\ Computed(e)
    [] e.ev = "get" -> Got(e) /\ Shown(e) /\ UNCHANGED <<P, o, S, K>>
    [] e.ev = "mat" -> GotMatrix(e) /\ Shown(e) /\ UNCHANGED <<P, o, S, K>>
Step == l <= Len(Traces[t].ev) /\ Event(Ev) /\ l' = l + 1 /\ UNCHANGED t
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
