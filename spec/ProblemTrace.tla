----------------------------- MODULE ProblemTrace -----------------------------
(* Conformance of the real ceres::Problem with Problem.tla: every recorded    *)
(* call must be an enabled action of the specification (or abort, when the    *)
(* specification says the call is a misuse), and everything the public        *)
(* queries report afterwards must be a projection of the specification state. *)
(* Evaluation results are computed here from the same integer formulas the    *)
(* driver's cost functions use.                                               *)
EXTENDS Problem, Dbl, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l,
  val,      \* slot -> <<x0,x1,x2>>, the user's memory
  failm,    \* cost -> failure mode (set of pairs)
  alive     \* the Problem object exists
tvars == <<pvars, t, l, val, failm, alive>>

NSlots == 12
Ev == Traces[t].ev[l]
Arg == Ev.a
TInit == /\ Init /\ t \in 1..Len(Traces) /\ l = 1 /\ failm = <<>> /\ alive = TRUE
         /\ val = [s \in 1..NSlots |-> [i \in 1..3 |-> ((s * 3 + (i - 1) * 2) % 5) - 2]]

\* ---------------------------------------------------------------- formulas
A(c, r, b, i) == ((c * 7 + r * 5 + b * 3 + i * 2) % 7) - 3
C0(c, r) == ((c * 3 + r * 2) % 5) - 2
Q(c, r) == ((c + r) % 3) - 1
MB(m, i, j) == IF m % 4 = 0 THEN (IF i = j THEN 1 ELSE 0) ELSE ((m * 5 + i * 3 + j) % 5) - 2
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
SumOver(n, F(_)) == Sum([k \in 1..n |-> F(k)], n)
FailMode(c) == IF c \in DOMAIN failm THEN failm[c] ELSE 0

\* residual r (0 based) of residual block x, at the user's values v
Res(x, r, v) ==
  LET x00 == v[x.blocks[1]][1]
      B(b) == LET I(i) == A(x.cost, r, b - 1, i - 1) * v[x.blocks[b]][i]
              IN SumOver(blk[x.blocks[b]].sz, I)
  IN C0(x.cost, r) + Q(x.cost, r) * x00 * x00 + SumOver(Len(x.blocks), B)
\* ambient jacobian entry, all 0 based
AJ(x, r, b, i, v) == A(x.cost, r, b, i)
                     + (IF b = 0 /\ i = 0 THEN 2 * Q(x.cost, r) * v[x.blocks[1]][1] ELSE 0)
\* tangent jacobian entry (column j of block b)
TJ(x, r, b, j, v) ==
  LET p == blk[x.blocks[b + 1]] IN
  IF p.man = 0 THEN AJ(x, r, b, j, v)
  ELSE LET I(i) == AJ(x, r, b, i - 1, v) * MB(p.man, i - 1, j) IN SumOver(p.sz, I)

SqN(x, v) == LET R(r) == Res(x, r - 1, v) * Res(x, r - 1, v) IN SumOver(CostRes(x.cost), R)
\* kinds of loss: rho(s), rho', and for kind 4 (rho'' > 0) a second order correction
Kind(x, al) == IF ~al \/ x.loss = 0 THEN 0 ELSE x.loss % 6
Rho0(k, s) == CASE k = 0 -> s [] k = 1 -> 4 * s [] k = 2 -> 4 * s + 2 [] k = 3 -> 9 * s
                [] k = 4 -> 5 * s [] k = 5 -> 16 * s + 2
Rho1(k) == CASE k = 0 -> 1 [] k = 1 -> 4 [] k = 2 -> 4 [] k = 3 -> 9 [] k = 4 -> 4 [] k = 5 -> 16
SqRho1(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 2 [] k = 3 -> 3 [] k = 4 -> 2 [] k = 5 -> 4
\* corrected residual: the triggs scaling; for kind 4 it is sqrt(rho')/(1-alpha) = 1
CorrR(x, r, k, s, v) == (IF k = 4 /\ s # 0 THEN 1 ELSE SqRho1(k)) * Res(x, r, v)
\* corrected jacobian entry as the fraction num/den
CorrJ(x, r, b, j, k, s, v) ==
  IF k = 4 /\ s # 0
  THEN LET RJ(q) == Res(x, q - 1, v) * TJ(x, q - 1, b, j, v)
       IN <<2 * (s * TJ(x, r, b, j, v) + Res(x, r, v) * SumOver(CostRes(x.cost), RJ)), s>>
  ELSE <<SqRho1(k) * TJ(x, r, b, j, v), 1>>

\* ---------------------------------------------------------------- evaluation
\* Is evaluating x (with jacobians for its blocks in set act) a failure?
BadRes(x) == FailMode(x.cost) \in {1, 2, 4, 5}
BadJac(x, act) == FailMode(x.cost) = 3 /\ \E b \in 1..Len(x.blocks) : x.blocks[b] \in act
Bad(x, jac, act) == BadRes(x) \/ (jac /\ BadJac(x, act))

\* exp: sequence of integers; got: sequence of doubles
IntSeqEq(exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) : DEq(got[i], exp[i])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* columns of the blocks ps: sequence of <<block, tangent index>>; a constant
\* block keeps its columns, which are zero
Cols(ps) == Flat([i \in 1..Len(ps) |-> [j \in 1..Tan(blk[ps[i]]) |-> <<ps[i], j - 1>>]])
Rows(rs) == Flat([i \in 1..Len(rs) |-> [r \in 1..CostRes(rs[i].cost) |-> <<rs[i], r - 1>>]])
PosIn(x, p) == LET S == {b \in 1..Len(x.blocks) : x.blocks[b] = p} IN
               IF S = {} THEN 0 ELSE CHOOSE b \in S : TRUE

GradEntry(rs, col, al, v) ==
  LET F(k) == LET x == rs[k] b == PosIn(x, col[1]) IN
              IF b = 0 \/ IsConst(blk[col[1]]) THEN 0
              ELSE LET RJ(q) == Res(x, q - 1, v) * TJ(x, q - 1, b - 1, col[2], v)
                   IN Rho1(Kind(x, al)) * SumOver(CostRes(x.cost), RJ)
  IN SumOver(Len(rs), F)
JEntryOk(row, col, al, v, got) ==
  LET x == row[1] b == PosIn(x, col[1]) k == Kind(x, al) IN
  IF b = 0 \/ IsConst(blk[col[1]]) THEN DEq(got, 0)
  ELSE LET q == CorrJ(x, row[2], b - 1, col[2], k, SqN(x, v), v) IN DIsRat(got, q[1], q[2])

\* Jacobian and gradient agree with the column order cols
ColsOk(y, rs, cols, al, mask) ==
  /\ (mask \div 4) % 2 = 1 =>
        /\ Len(y.g) = Len(cols)
        /\ \A j \in 1..Len(cols) : DIsRat(y.g[j], GradEntry(rs, cols[j], al, val), 1)
  /\ (mask \div 8) % 2 = 1 =>
        LET rows == Rows(rs) IN
        /\ y.nc = Len(cols) /\ y.nrow = Len(rows) /\ ~y.dup
        /\ \A i \in 1..Len(rows) : \A j \in 1..Len(cols) :
              JEntryOk(rows[i], cols[j], al, val, y.J[i][j])
\* some order of the blocks in S explains columns from number n on
RECURSIVE SomeOrder(_, _, _, _, _, _)
SomeOrder(y, rs, S, done, al, mask) ==
  IF S = {} THEN ColsOk(y, rs, Cols(done), al, mask)
  ELSE \E p \in S : SomeOrder(y, rs, S \ {p}, Append(done, p), al, mask)

NoVals(y) == y.ok
\* y is a correct answer for evaluating residual blocks rs; ps = <<>> means all
EvalOk(y, rs, ps, al, mask) ==
  LET jac == mask >= 4
      act == IF ps = <<>> THEN {p \in Present : ~IsConst(blk[p])}
             ELSE {p \in Range(ps) : ~IsConst(blk[p])}
      bad == \E i \in 1..Len(rs) : Bad(rs[i], jac, act)
      C(i) == Rho0(Kind(rs[i], al), SqN(rs[i], val))
  IN /\ y.ok = ~bad
     /\ y.ok =>
        /\ mask % 2 = 1 => DIsRat(y.c, SumOver(Len(rs), C), 2)
        /\ (mask \div 2) % 2 = 1 =>
             LET rows == Rows(rs) IN
             /\ Len(y.r) = Len(rows)
             /\ \A i \in 1..Len(rows) :
                  LET x == rows[i][1] IN
                  DIsRat(y.r[i], CorrR(x, rows[i][2], Kind(x, al), SqN(x, val), val), 1)
        /\ jac => IF ps # <<>> THEN ColsOk(y, rs, Cols(ps), al, mask)
                  ELSE IF ~removed THEN ColsOk(y, rs, Cols(order), al, mask)
                  ELSE SomeOrder(y, rs, Present, <<>>, al, mask)

EvalResOk(y, x, al, mask, jmask) ==
  LET n == Len(x.blocks)
      jac == (mask \div 8) % 2 = 1
      want == IF ~jac THEN {} ELSE {b \in 1..n : (jmask \div (2 ^ (b - 1))) % 2 = 1}
      act == {x.blocks[b] : b \in want}
      refuse == \E p \in act : IsConst(blk[p])
      k == Kind(x, al)
      s == SqN(x, val)
  IN /\ y.guard
     /\ y.ok = ~(refuse \/ Bad(x, jac, act))
     /\ y.ok =>
        /\ mask % 2 = 1 => DIsRat(y.c, Rho0(k, s), 2)
        /\ (mask \div 2) % 2 = 1 =>
             /\ Len(y.r) = CostRes(x.cost)
             /\ \A r \in 1..Len(y.r) : DIsRat(y.r[r], CorrR(x, r - 1, k, s, val), 1)
        /\ \A b \in want :
             LET w == Tan(blk[x.blocks[b]]) IN
             /\ Len(y.J[b]) = w * CostRes(x.cost)
             /\ \A r \in 1..CostRes(x.cost), j \in 1..w :
                  LET q == CorrJ(x, r - 1, b - 1, j - 1, k, s, val)
                  IN DIsRat(y.J[b][(r - 1) * w + j], q[1], q[2])

\* ---------------------------------------------------------------- observation
Count(pairs, id) == LET S == {i \in 1..Len(pairs) : pairs[i][1] = id} IN
                    IF S = {} THEN 0 ELSE pairs[CHOOSE i \in S : TRUE][2]
ManEverAll == manEver
\* destructor calls: dc, dl, dm give <<object, count>> pairs.  An object that
\* the problem owns dies once, never while in use, and at the latest with the
\* problem; one it does not own never dies.
DeadOk(d, T, usedC, usedL) ==
  /\ \A i \in 1..Len(d.c) : T.ownC = 1 /\ d.c[i][2] = 1 /\ d.c[i][1] \in usedC
                            /\ (alive' => ~\E r \in Range(res') : r.cost = d.c[i][1])
  /\ \A i \in 1..Len(d.l) : T.ownL = 1 /\ d.l[i][2] = 1 /\ d.l[i][1] \in usedL
                            /\ (alive' => ~\E r \in Range(res') : r.loss = d.l[i][1])
  /\ \A i \in 1..Len(d.m) : T.ownM = 1 /\ d.m[i][2] = 1 /\ d.m[i][1] \in manEver'
                            /\ (alive' => ~\E p \in DOMAIN blk' : blk'[p].man = d.m[i][1])
  /\ ~alive' =>
       /\ T.ownC = 1 => \A c \in usedC : Count(d.c, c) = 1
       /\ T.ownL = 1 => \A c \in usedL : c = 0 \/ Count(d.l, c) = 1
       /\ T.ownM = 1 => \A c \in manEver' : Count(d.m, c) = 1
\* every cost / loss object that any residual block of this trace ever used
AddEvents == {i \in 1..l : Traces[t].ev[i].op = "addr" /\ Traces[t].ev[i].r = "ok"}
UsedC == {Traces[t].ev[i].a[1] : i \in AddEvents}
UsedL == {Traces[t].ev[i].a[2] : i \in AddEvents} \ {0}

RECURSIVE SetSort2(_)
SetSort2(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                        IN <<m>> \o SetSort2(S \ {m})
UsesNext(p) == {r.id : r \in {x \in Range(res') : p \in Range(x.blocks)}}
ObsOk(o) ==
  LET P == SetSort2(DOMAIN blk')
      np == Len(P)
      Sz(i) == blk'[P[i]].sz
      Rz(i) == CostRes(res'[i].cost)
  IN
  /\ o.np = np /\ Len(o.ps) = np /\ Range(o.ps) = DOMAIN blk'
  /\ o.n = SumOver(np, Sz)
  /\ o.nr = Len(res') /\ o.m = SumOver(Len(res'), Rz)
  /\ Len(o.blk) = np
  /\ \A i \in 1..np :
       LET b == o.blk[i] e == blk'[P[i]] IN
       /\ b.p = P[i] /\ b.sz = e.sz /\ b.tan = Tan(e) /\ b.con = IsConst(e)
       /\ b.man = e.man /\ b.has = (e.man # 0) /\ b.lo = e.lo /\ b.hi = e.hi
       /\ Len(b.rs) = Cardinality(UsesNext(P[i]))
       /\ Range(b.rs) = UsesNext(P[i])
  /\ IF removed' THEN Len(o.res) = Len(res') /\ Range(o.res) = Range(res') ELSE o.res = res'
  /\ o.val = val'
  /\ DeadOk(o.dead, Traces[t], UsedC, UsedL)

\* EvaluationCallback: what a call that evaluates must have announced
CallsOk(o, jac, fresh, n, ok) ==
  IF Traces[t].cb = 0 THEN o.calls = <<>>
  ELSE /\ Len(o.calls) = 1
       /\ LET k == o.calls[1] IN
          /\ k[1] = (IF jac THEN 1 ELSE 0)
          /\ k[2] = (IF fresh THEN 1 ELSE 0)
          /\ ok => k[3] = n
          /\ (~jac) => k[4] = 0
NoCalls == Ev.o.calls = <<>>

Keep == UNCHANGED pvars
Fatal == /\ Ev.r = "fatal" /\ l = Len(Traces[t].ev)
         /\ UNCHANGED <<pvars, val, failm, alive>>
\* the call is legal: do the action and compare; otherwise it must abort
Do(legal, action) == IF legal THEN Ev.r = "ok" /\ action /\ ObsOk(Ev.o) ELSE Fatal

UserMem == UNCHANGED <<val, failm, alive>>
Query(p, y) == /\ Keep /\ UserMem /\ Ev.y = y /\ NoCalls

ResSeq(ids) == [i \in 1..Len(ids) |-> ResById(ids[i])]
\* the order in which all residual blocks are evaluated: as reported
AllRes == IF removed THEN [i \in 1..Len(Ev.o.res) |-> ResById(Ev.o.res[i].id)] ELSE res

EvalArgs == LET n == Arg[4] IN
            [ids |-> SubSeq(Arg, 5, 4 + n), ps |-> SubSeq(Arg, 6 + n, 5 + n + Arg[5 + n])]

\* bounds and a solve with no iterations
InBounds(b, v) == \A i \in 1..b.sz : b.lo[i] <= v[i] /\ v[i] <= b.hi[i]
Feasible == \A p \in Present : IF IsConst(blk[p]) THEN InBounds(blk[p], val[p])
                               ELSE \A i \in 1..blk[p].sz : blk[p].lo[i] < blk[p].hi[i]
Active == {p \in Present : ~IsConst(blk[p]) /\ Uses(p) # {}}
Clamp(b, v) == [i \in 1..3 |-> IF i > b.sz THEN v[i]
                               ELSE IF v[i] < b.lo[i] THEN b.lo[i]
                               ELSE IF v[i] > b.hi[i] THEN b.hi[i] ELSE v[i]]
Step0 ==
  LET o == Ev.op a == Arg IN
  CASE o = "addp"  -> Do(OkAddP(a[1], a[2]), AddParameterBlock(a[1], a[2]) /\ UserMem /\ NoCalls)
    [] o = "addpm" -> Do(OkAddP(a[1], a[2]) /\ OkMan(a[3], a[2]),
                         AddParameterBlockM(a[1], a[2], a[3]) /\ UserMem /\ NoCalls)
    [] o = "alias" -> Fatal       \* generated only for an overlapping location
    [] o = "addr"  -> LET b == SubSeq(a, 3, Len(a)) IN
                      Do(OkAddR(a[1], b), AddResidualBlock(a[1], a[2], b) /\ UserMem /\ NoCalls)
    [] o = "remp"  -> Do(a[1] \in Present, RemoveParameterBlock(a[1]) /\ UserMem /\ NoCalls)
    [] o = "remr"  -> Do(a[1] \in ResIds, RemoveResidualBlock(a[1]) /\ UserMem /\ NoCalls)
    [] o = "con"   -> Do(a[1] \in Present, SetConstant(a[1]) /\ UserMem /\ NoCalls)
    [] o = "var"   -> Do(a[1] \in Present, SetVariable(a[1]) /\ UserMem /\ NoCalls)
    [] o = "man"   -> Do(a[1] \in Present /\ OkMan(a[2], blk[a[1]].sz),
                         SetManifold(a[1], a[2]) /\ UserMem /\ NoCalls)
    [] o = "lo"    -> Do(a[1] \in Present /\ a[2] < blk[a[1]].sz,
                         SetLower(a[1], a[2], a[3]) /\ UserMem /\ NoCalls)
    [] o = "hi"    -> Do(a[1] \in Present /\ a[2] < blk[a[1]].sz,
                         SetUpper(a[1], a[2], a[3]) /\ UserMem /\ NoCalls)
    [] o = "val"   -> Do(TRUE, /\ Keep /\ val' = [val EXCEPT ![a[1]] = <<a[2], a[3], a[4]>>]
                               /\ UNCHANGED <<failm, alive>> /\ NoCalls)
    [] o = "fail"  -> Do(TRUE, /\ Keep /\ failm' = (a[1] :> a[2]) @@ failm
                               /\ UNCHANGED <<val, alive>> /\ NoCalls)
    [] o = "qcon"  -> Do(a[1] \in Present, Query(a[1], IsConst(blk[a[1]])))
    [] o = "qsz"   -> Do(a[1] \in Present, Query(a[1], blk[a[1]].sz))
    [] o = "qtan"  -> Do(a[1] \in Present, Query(a[1], Tan(blk[a[1]])))
    [] o = "qman"  -> Do(a[1] \in Present, Query(a[1], blk[a[1]].man))
    [] o = "qlo"   -> Do(a[1] \in Present, Query(a[1], blk[a[1]].lo[a[2] + 1]))
    [] o = "qhi"   -> Do(a[1] \in Present, Query(a[1], blk[a[1]].hi[a[2] + 1]))
    [] o = "qres"  -> Do(a[1] \in Present, /\ Keep /\ UserMem /\ NoCalls
                                           /\ Range(Ev.y) = Uses(a[1])
                                           /\ Len(Ev.y) = Cardinality(Uses(a[1])))
    [] o \in {"move", "massign"} -> Do(TRUE, Keep /\ UserMem /\ NoCalls)
    [] o = "eval"  -> LET e == EvalArgs
                          rs == IF e.ids = <<>> THEN AllRes ELSE ResSeq(e.ids)
                      IN Do(Range(e.ps) \subseteq Present,
                            /\ Keep /\ UserMem
                            /\ EvalOk(Ev.y, rs, e.ps, a[1] = 1, a[3])
                            /\ CallsOk(Ev.o, a[3] >= 4, TRUE, Len(rs), Ev.y.ok))
    [] o = "evalr" -> LET x == ResById(a[1]) IN
                      Do(a[1] \in ResIds,
                         /\ Keep /\ UserMem
                         /\ EvalResOk(Ev.y, x, a[2] = 1, a[3], a[4])
                         /\ CallsOk(Ev.o, a[3] >= 8, a[5] = 0, 1, Ev.y.ok))
    [] o = "solve" -> Do(TRUE,
                         LET bad == \E r \in Range(res) : Bad(r, TRUE, Active) IN
                         /\ Keep /\ UNCHANGED <<failm, alive>>
                         /\ Ev.y.usable = (Feasible /\ ~bad)
                         /\ IF Ev.y.usable
                            THEN val' = [p \in DOMAIN val |-> IF p \in Active THEN Clamp(blk[p], val[p]) ELSE val[p]]
                            ELSE val' = val)
Destroy == /\ Ev.op = "destroy" /\ Ev.r = "ok" /\ l = Len(Traces[t].ev)
           /\ alive' = FALSE /\ UNCHANGED <<pvars, val, failm>>
           /\ DeadOk(Ev.o.dead, Traces[t], UsedC, UsedL)

Step == /\ l <= Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ IF Ev.op = "destroy" THEN Destroy ELSE Step0
Done == l > Len(Traces[t].ev) /\ UNCHANGED tvars
TNext == Step \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
