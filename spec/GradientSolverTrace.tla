-------------------------- MODULE GradientSolverTrace --------------------------
(* Recorded runs of GradientProblemSolver: the line search minimizer around the *)
(* searches of LineSearch.tla, with the numbers.  Events:                       *)
(* S the options; F the function was called; P the manifold refused a step;     *)
(* C an iteration callback; E the solve returned.                               *)
EXTENDS Integers, Sequences, Dbl, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l,
  ph,      \* start, gate0, cbs, run, search, dead, user
  st, pv,  \* the current point and the one before it
  hist,    \* what the direction method remembers
  rest,    \* direction restarts so far
  S,       \* possible configurations of the running search, with its parameters
  ns,      \* samples it has taken
  recs, cbn, told, \* iterations reported; next callback; what the last one asked for
  shown,   \* the point user memory shows while the solve runs
  nf, ng, init,
  prep     \* what the EvaluationCallback was last told
vars == <<t, l, ph, st, pv, hist, rest, S, ns, recs, cbn, told, shown, nf, ng, init, prep>>
Ev == Traces[t].ev[l]
o == Traces[t].ev[1]
Nil == <<>>
Eps == DLit("1e-15")
Tiny == DLit("1e-300")
N == o.n
NT == o.nt
It == Len(recs) - 1

\* ------------------------------------------------------------ geometry
PJ(x) == IF o.man = 2 THEN [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN x[i] ELSE DInt(0)]] ELSE o.E
Ambient(x, d) == MV(PJ(x), d)
Tangent(x, g) == MTV(PJ(x), g, NT)
Ones == [i \in 1..NT |-> DInt(1)]

\* ------------------------------------------------------------ fuzzy tests
\* TRUE if surely, FALSE if surely not, both if |x - y| <= e
LeV(x, y, e) == IF DLe(x, DSub(y, e)) THEN {TRUE}
                ELSE IF DLt(DAdd(y, e), x) THEN {FALSE} ELSE {TRUE, FALSE}
StepErr(p, x) == DAdd(p.serr, DMul(DAdd(p.derr, DLit("1e-12")), DAbs(x)))
TArmijo(p, s) ==
  LeV(s.c, DAdd(p.c0, DMul(DMul(p.sd, p.g0), s.x)),
      DAdd(DMul(DLit("1e-14"), DAdd(DAbs(p.c0), DAbs(s.c))),
           DMul(p.sd, DAdd(DMul(DAbs(p.g0), StepErr(p, s.x)), DMul(p.gerr, s.x)))))
TCurv(p, s) == LeV(DAbs(s.g), DNeg(DMul(p.scd, p.g0)), DAdd(p.gerr, DMul(DAdd(p.derr, DLit("1e-13")), DMul(VNorm(s.gt), VNorm(p.dir)))))
TSmall(p, w) == LET q == DMul(w, p.dmax) IN
  IF DLt(q, DSub(p.minstep, DMul(p.dmax, StepErr(p, w)))) THEN {TRUE}
  ELSE IF DLe(DAdd(p.minstep, DMul(p.dmax, StepErr(p, w))), q) THEN {FALSE} ELSE {TRUE, FALSE}
TLe(x, y) == DLe(x, y)
TMinus(x, y) == DSub(x, y)
TTimes(x, y) == DMul(x, y)
THalf(x) == DMul(x, DLit("0.5"))
TZero == DInt(0)
CONSTANTS Focus
CONSTANTS Le(_, _), Minus(_, _), Times(_, _), Half(_), Zero, Armijo(_, _), Curv(_, _), Small(_, _)
LS == INSTANCE LineSearch

\* ------------------------------------------------------------ directions
\* a point: its projected gradient norms
\* (ga: the size of the gradient it is the projection of, e: the relative error of its own)
Point(x, c, g, ga) == LET d == Ambient(x, g) IN
  [x |-> x, c |-> c, g |-> g, gmax |-> VMaxAbs(d), gn2 |-> VDot(d, d), ga |-> ga,
   e |-> DMul(DLit("1e-15"), DDiv(DMul(ga, DAdd(1, VNorm([i \in 1..N |-> VNorm(PJ(x)[i])]))), DMax(VNorm(g), Tiny)))]
Neg(v) == VScale(-1, v)
Fresh == IF o.dir = "LBFGS" THEN [cor |-> <<>>, scale |-> DInt(1)]
         ELSE IF o.dir = "BFGS" THEN [H |-> [i \in 1..NT |-> [j \in 1..NT |-> DInt(IF i = j THEN 1 ELSE 0)]], used |-> FALSE, e |-> DInt(0)]
         ELSE Nil
\* fuzzy use of a correction pair: tolerance 1e-14
DX == VScale(pv.step, pv.dir)
DG == VSub(st.g, pv.g)
PairErr == DAdd(pv.err, DDiv(DMul(DAdd(DLit("2e-16"), DAdd(st.e, pv.e)), DMul(VNorm(DX), DAdd(VNorm(st.g), VNorm(pv.g)))), DAbs(VDot(DX, DG))))
Use == LET d == VDot(DX, DG)
           e == DMul(DLit("1e-14"), DMul(VNorm(DX), DAdd(VNorm(st.g), VNorm(pv.g))))
       IN {~b : b \in LeV(d, DLit("1e-14"), e)}
\* LBFGS two loop recursion
RECURSIVE Down(_, _, _)
Down(cor, i, q) == \* <<q, alphas by index>>
  IF i = 0 THEN [q |-> q, al |-> <<>>]
  ELSE LET a == DDiv(VDot(cor[i].s, q), cor[i].d)
           r == Down(cor, i - 1, VSub(q, VScale(a, cor[i].y)))
       IN [q |-> r.q, al |-> Append(r.al, a)]
RECURSIVE Up(_, _, _, _)
Up(cor, al, i, q) ==
  IF i > Len(cor) THEN q
  ELSE Up(cor, al, i + 1,
          VAdd(q, VScale(DSub(al[i], DDiv(VDot(cor[i].y, q), cor[i].d)), cor[i].s)))
LProd(h, g) == LET r == Down(h.cor, Len(h.cor), g)
               IN Up(h.cor, r.al, 1, IF o.eig THEN VScale(h.scale, r.q) ELSE r.q)
LUpdate(h) == LET d == VDot(DX, DG)
                  c == Append(h.cor, [s |-> DX, y |-> DG, d |-> d, e |-> PairErr])
              IN [cor |-> IF Len(c) > o.rank THEN Tail(c) ELSE c, scale |-> DDiv(d, VDot(DG, DG))]
BUpdate(h) ==
  LET d == VDot(DX, DG)
      k == IF ~h.used /\ o.eig THEN DDiv(d, VDot(DG, DG)) ELSE DInt(1)
      H == [i \in 1..NT |-> VScale(k, h.H[i])]
      rho == DDiv(1, d)
      Hy == MV(H, DG)
      q == DAdd(1, DMul(rho, VDot(DG, Hy)))
  IN [H |-> [i \in 1..NT |-> [j \in 1..NT |->
              DAdd(H[i][j], DMul(rho, DSub(DMul(q, DMul(DX[i], DX[j])),
                                           DAdd(DMul(DX[i], Hy[j]), DMul(Hy[i], DX[j])))))]],
      used |-> TRUE,
      \* how far rounding may have taken H from its true value
      e |-> LET kap == DMul(DAbs(rho), DMul(VNorm(DX), VNorm(DG)))
                k2 == DMul(kap, kap) IN
            DAdd(DMul(k2, DMul(k, h.e)),
                 DMul(DAdd(PairErr, DMul(DLit("1e-16"), kap)),
                      DAdd(DMul(k2, VNorm([i \in 1..NT |-> VNorm(H[i])])), DMul(DAbs(rho), VDot(DX, DX)))))]
\* relative error of a quasi Newton product
QErr(h, d) ==
  LET n == DMax(VNorm(d), Tiny)
      big(c) == DDiv(DMul(VNorm(c.s), DAdd(VNorm(c.s), VNorm(c.y))), DAbs(c.d))
  IN IF o.dir = "BFGS"
     THEN DAdd(DLit("1e-12"), DMul(2, DDiv(DMul(DAdd(h.e, DMul(DAdd(DLit("1e-15"), st.e), VNorm([i \in 1..NT |-> VNorm(h.H[i])]))), VNorm(st.g)), n)))
     ELSE DAdd(DLit("1e-12"), DDiv(DMul(DMul(2, VNorm(st.g)),
                 VNorm([i \in 1..Len(h.cor) |-> DMul(DAdd(DAdd(DLit("1e-15"), st.e), h.cor[i].e), big(h.cor[i]))])), n))
Steepest(r, h) == [k |-> "dir", dir |-> Neg(st.g), hist |-> h, rest |-> r, first |-> TRUE, err |-> DAdd(DLit("1e-14"), st.e)]
Restart == IF rest >= o.restarts THEN [k |-> "fail"] ELSE Steepest(rest + 1, Fresh)
Quasi(h) == LET d == Neg(IF o.dir = "LBFGS" THEN LProd(h, st.g) ELSE MV(h.H, st.g))
                e == QErr(h, d)
                dd == VDot(d, st.g)
                up == {~b : b \in LeV(DInt(0), dd, DMul(e, DMul(VNorm(d), VNorm(st.g))))}
            IN IF ~VFin(d) \/ DLt(DLit("1e-6"), e) THEN {[k |-> "lost"]}
               ELSE {IF b THEN [k |-> "dir", dir |-> d, hist |-> h, rest |-> rest, first |-> FALSE, err |-> e]
                     ELSE Restart : b \in up}
Conj ==
  LET y == DG
      beta == IF o.ncg = "FR" THEN DDiv(st.gn2, pv.gn2)
              ELSE IF o.ncg = "PR" THEN DDiv(VDot(st.g, y), pv.gn2)
              ELSE DDiv(VDot(st.g, y), VDot(pv.dir, y))
      \* cancellation in beta
      den == IF o.ncg = "HS" THEN DAbs(VDot(pv.dir, y)) ELSE pv.gn2
      fuzz == DDiv(DMul(DAdd(DLit("1e-14"), DAdd(st.e, pv.e)), DMul(DAdd(VNorm(st.g), VNorm(pv.dir)), DAdd(VNorm(st.g), VNorm(pv.g)))), den)
      e == DMul(DAdd(DMul(DLit("1e-12"), DAdd(1, DAbs(beta))), DAdd(DMul(fuzz, DAdd(1, DAbs(beta))), DMul(DMul(4, DAbs(beta)), pv.err))), VNorm(pv.dir))
      d == VAdd(Neg(st.g), VScale(beta, pv.dir))
      dd == VDot(d, st.g)
      down == LeV(dd, DLit("-1e-12"), DMul(VNorm(st.g), DAdd(e, DMul(DLit("1e-14"), VNorm(d)))))
  IN IF ~VFin(d) THEN {[Steepest(rest, hist) EXCEPT !.first = FALSE]}
     ELSE IF DLt(DMul(DLit("1e-6"), VNorm(d)), e) THEN {[k |-> "lost"]}
     ELSE {IF b THEN [k |-> "dir", dir |-> d, hist |-> hist, rest |-> rest, first |-> FALSE,
                      err |-> DAdd(DLit("1e-13"), DDiv(DAdd(e, DMul(st.e, VNorm(st.g))), DMax(VNorm(d), Tiny)))]
           ELSE [Steepest(rest, hist) EXCEPT !.first = FALSE] : b \in down}
Directions ==
  IF It = 0 THEN {Steepest(rest, hist)}
  ELSE CASE o.dir = "SD" -> {[Steepest(rest, hist) EXCEPT !.first = FALSE]}
         [] o.dir = "NCG" -> Conj
         [] o.dir = "LBFGS" -> UNION {Quasi(IF b THEN LUpdate(hist) ELSE hist) : b \in Use}
         [] OTHER -> UNION {Quasi(IF b THEN BUpdate(hist) ELSE hist) : b \in Use}

\* ------------------------------------------------------------ the search
Params(d) ==
  LET a == Ambient(st.x, d.dir)
      g0 == VDot(st.g, d.dir)
  IN [kind |-> o.kind, interp |-> o.interp, maxit |-> o.lsit, maxc |-> o.maxc, minc |-> o.minc,
      expand |-> o.expand, sd |-> o.sd, scd |-> o.scd, minstep |-> o.minstep,
      c0 |-> st.c, g0 |-> g0, dir |-> d.dir, a |-> a, dmax |-> VMaxAbs(d.dir), derr |-> d.err,
      gerr |-> DMul(DAdd(DLit("1e-14"), d.err), DMul(VNorm(st.g), VNorm(d.dir))),
      serr |-> DDiv(DMul(Eps, VNorm(st.x)), DMax(VNorm(a), Tiny)),
      hist |-> d.hist, rest |-> d.rest]
ZeroSample(p) == [x |-> DInt(0), ok |-> TRUE, c |-> st.c, g |-> p.g0, xv |-> st.x, gt |-> st.g, ga |-> st.ga, has |-> FALSE]
FirstStep(d, p) == IF d.first \/ It = 0 THEN DMin(1, DDiv(1, st.gmax))
                   ELSE DMin(1, DDiv(DMul(2, DSub(st.c, pv.c)), p.g0))
Starts == UNION {IF d.k # "dir" THEN {[p |-> Nil, c |-> [k |-> d.k, n |-> 0]]}
                 ELSE LET p == Params(d)
                          s == FirstStep(d, p)
                      IN IF DLt(s, 0) THEN {[p |-> p, c |-> [k |-> "fail", n |-> 0]]}
                         ELSE {[p |-> p, c |-> c] : c \in LS!Start(p, ZeroSample(p), s)}
                 : d \in Directions}
Cands == IF ph = "run" THEN Starts ELSE S
NeedsGrad == o.kind = "WOLFE" \/ o.interp = "CUBIC"
StepOf(p, x) == LET q == VDot(p.a, p.a) IN IF DEq(q, 0) THEN DInt(0) ELSE DDiv(VDot(VSub(x, st.x), p.a), q)
OnLine(p, s, x) == LET err == VSub(VSub(x, st.x), VScale(s, p.a)) IN
  DLe(VNorm(err), DAdd(DMul(DMul(2, Eps), DAdd(VNorm(st.x), VNorm(x))),
                       DMul(DMul(DAdd(DLit("1e-14"), p.derr), DAbs(s)), VNorm(p.a))))
\* the interpolating polynomial through the samples, minimised over [lo, hi]
Pow(x, n) == IF n = 0 THEN DInt(1) ELSE DPow(x, n)
FitPts(c) == IF o.interp = "QUADRATIC" /\ Len(c.fit) > 0
             THEN [i \in 1..Len(c.fit) |-> [c.fit[i] EXCEPT !.has = i = 1]]
             ELSE c.fit
RECURSIVE FitRows(_, _)
Horner(cf, x) == VDot(cf, [j \in 1..Len(cf) |-> Pow(x, j - 1)])
FitRows(q, k) ==
  IF q = <<>> THEN <<>>
  ELSE LET s == Head(q) IN
       <<[v |-> [j \in 1..k |-> Pow(s.u, j - 1)], r |-> s.c]>>
       \o (IF s.has THEN <<[v |-> [j \in 1..k |-> IF j = 1 THEN DInt(0) ELSE DMul(DInt(j - 1), Pow(s.u, j - 2))], r |-> s.gu]>> ELSE <<>>)
       \o FitRows(Tail(q), k)
Interpolates(c, s) ==
  IF c.fit = <<>> \/ DEq(c.lo, c.hi) THEN TRUE
  ELSE LET q0 == FitPts(c)
           q1 == SelectSeq(q0, LAMBDA e : e.ok)
           X == DMax(c.hi, VMaxAbs([i \in 1..Len(q1) |-> q1[i].x]))
           q == [i \in 1..Len(q1) |-> [u |-> DDiv(q1[i].x, X), c |-> q1[i].c, gu |-> DMul(q1[i].g, X), has |-> q1[i].has \/ (i = 1 /\ ~DLt(0, q1[i].x))]]
           k == Len(q) + Len(SelectSeq(q, LAMBDA e : e.has))
           R == FitRows(q, k)
           M == [i \in 1..k |-> R[i].v]
           y == [i \in 1..k |-> R[i].r]
           one == [i \in 1..k |-> DInt(1)]
           nul == [i \in 1..k |-> DInt(0)]
           cf == MSolve(M, nul, MTV(M, y, k), k)
           lo == DDiv(c.lo, X)
           w == DSub(DDiv(c.hi, X), lo)
           grid == [i \in 0..16 |-> Horner(cf, DAdd(lo, DMul(w, DDiv(i, 16))))]
           big == DAdd(VMaxAbs(y), VMaxAbs(cf))
           mine == Horner(cf, DDiv(s.x, X))
       IN IF ~DLe(DLit("2e-3"), MRcond(M, one, k)) \/ ~DLe(DLit("1e-6"), w) THEN TRUE
          ELSE \A i \in 0..16 : DLe(mine, DAdd(grid[i], DMul(DLit("1e-6"), big)))
InRange(p, c, s) == LET e == DAdd(DAdd(StepErr(p, c.hi), DMul(p.serr, Pow(p.expand, c.n))),
                                  \* (the first step is a ratio with the directional derivative)
                                  DMul(c.hi, DDiv(p.gerr, DAbs(p.g0)))) IN
                    /\ DLe(DSub(c.lo, e), s.x) /\ DLe(s.x, DAdd(c.hi, e))
                    /\ c.n > 0 /\ c.ph # "Z" => FALSE \in TSmall(p, s.x)
                    /\ Interpolates(c, s)
SampleOf(p) ==
  LET gt == IF Ev.want /\ Ev.ok THEN Tangent(Ev.x, Ev.g) ELSE Nil
      g == IF gt = Nil THEN DInt(0) ELSE VDot(gt, p.dir)
      \* components have to be finite too, wherever the direction is not zero
      ok == Ev.ok /\ DFin(Ev.c) /\ (Ev.want => VFin(gt) /\ DFin(g))
  IN [x |-> StepOf(p, Ev.x), ok |-> ok, c |-> Ev.c, g |-> g, xv |-> Ev.x, gt |-> gt, ga |-> IF gt = Nil THEN DInt(0) ELSE VNorm(Ev.g), has |-> Ev.want /\ ok]
RefusedOf(p) ==
  LET q == VDot(p.dir, p.dir)
      s == DDiv(VDot(Ev.d, p.dir), q)
  IN [x |-> s, ok |-> FALSE, c |-> DInt(0), g |-> DInt(0), xv |-> st.x, gt |-> Nil, ga |-> DInt(0), has |-> FALSE]
Steps(fits(_, _, _), sample(_)) ==
  UNION {LET s == sample(k.p) IN
         IF fits(k.p, k.c, s) THEN {[p |-> k.p, c |-> c] : c \in LS!After(k.p, k.c, s)} ELSE {}
         : k \in {k \in Cands : k.c.k = "want"}}
Reevals == {k \in Cands : k.c.k = "ok" /\ ~k.c.pt.has /\ VEq(Ev.x, k.c.pt.xv)}
\* numbers too large to follow: the run is left unjudged
Huge == Ev.op = "F" /\ \/ DLt(DLit("1e8"), VMaxAbs(Ev.x))
                       \/ Ev.want /\ Ev.ok /\ DLt(DLit("1e5"), VMaxAbs(Ev.g))
                       \/ DLt(DLit("1e5"), VMaxAbs(st.g))
\* gradients that are rounding errors, or about to underflow
Faint == Ev.op = "F" /\ Ev.want /\ Ev.ok /\ VFin(Ev.g) /\ ~VEq(Ev.g, VScale(0, Ev.g))
         /\ LET q == VNorm(Tangent(Ev.x, Ev.g)) IN DLt(q, DMax(DLit("1e-120"), DMul(DLit("1e-7"), VNorm(Ev.g))))
Lost == Huge \/ Faint \/ \E k \in Cands : k.c.k = "lost"

\* ------------------------------------------------------------ events
Init ==
  /\ t \in 1..Len(Traces) /\ l = 2 /\ ph = "start"
  /\ st = Nil /\ pv = Nil /\ hist = Fresh /\ rest = 0 /\ S = {} /\ ns = 0
  /\ recs = <<>> /\ cbn = 0 /\ told = "GO" /\ shown = o.x0 /\ nf = 0 /\ ng = 0 /\ init = "" /\ prep = Nil
Count == IF Ev.want THEN ng' = ng + 1 /\ UNCHANGED nf ELSE nf' = nf + 1 /\ UNCHANGED ng
Called ==
  /\ Ev.op = "F" /\ Count
  /\ UNCHANGED <<pv, recs, cbn, told, shown>>
  /\ IF ph = "start"
     THEN /\ Ev.want /\ VEq(Ev.x, o.x0)
          /\ st' = IF Ev.ok THEN Point(Ev.x, Ev.c, Tangent(Ev.x, Ev.g), VNorm(Ev.g)) ELSE Nil
          /\ ph' = IF Ev.ok THEN "gate0" ELSE "dead"
          /\ init' = IF Ev.ok THEN Ev.c ELSE ""
          /\ UNCHANGED <<hist, rest, S, ns>>
     ELSE /\ ph \in {"run", "search"}
          /\ ph = "run" => It < o.maxit
          /\ UNCHANGED <<st, init, hist, rest>>
          /\ IF Huge \/ Faint THEN ph' = "lost" /\ S' = {} /\ UNCHANGED ns
             ELSE IF Ev.want /\ Reevals # {}
             THEN /\ ph' = IF Ev.ok THEN "search" ELSE "dead"
                  /\ S' = {[k EXCEPT !.c.pt.has = TRUE, !.c.pt.gt = Tangent(Ev.x, Ev.g), !.c.pt.ga = VNorm(Ev.g), !.c.pt.c = Ev.c] : k \in Reevals}
                  /\ UNCHANGED ns
             ELSE IF Lost THEN ph' = "lost" /\ S' = {} /\ UNCHANGED ns
             ELSE /\ Ev.want = NeedsGrad
                  /\ S' = Steps(LAMBDA p, c, s : OnLine(p, s.x, Ev.x) /\ InRange(p, c, s), SampleOf)
                  /\ S' # {}
                  /\ ph' = "search" /\ ns' = (IF ph = "run" THEN 0 ELSE ns) + 1
NormRefused(x, g) == VEq(Ev.x, x) /\ VNear(Ev.d, Neg(g), DLit("1e-12"), Tiny)
Refused ==
  /\ Ev.op = "P"
  /\ UNCHANGED <<st, pv, recs, cbn, told, shown, nf, ng, hist, rest>>
  /\ init' = IF ph = "gate0" THEN "" ELSE init
  /\ IF ph = "gate0" THEN NormRefused(st.x, st.g) /\ ph' = "dead" /\ UNCHANGED <<S, ns>>
     ELSE /\ ph \in {"run", "search"}
          /\ IF ph = "search" /\ \E k \in S : k.c.k = "ok" /\ k.c.pt.has /\ NormRefused(k.c.pt.xv, k.c.pt.gt)
             THEN ph' = "dead" /\ UNCHANGED <<S, ns>>
             ELSE IF Lost THEN ph' = "lost" /\ S' = {} /\ UNCHANGED ns
             ELSE /\ ph = "run" => It < o.maxit
                  /\ VEq(Ev.x, st.x)
                  /\ S' = Steps(LAMBDA p, c, s : VNear(Ev.d, VScale(s.x, p.dir), DAdd(p.derr, DLit("1e-12")), Tiny) /\ InRange(p, c, s), RefusedOf)
                  /\ S' # {}
                  /\ ph' = "search" /\ ns' = (IF ph = "run" THEN 0 ELSE ns) + 1
\* what the iteration that has just been finished has to say
GNear(x, y, p) == DNear(x, y, DAdd(DLit("1e-11"), DMul(2, p.e)), DMul(DLit("4e-16"), VNorm(p.x)))
Record0(i, p) ==
  /\ i.it = 0 /\ ~i.valid /\ ~i.succ /\ DEq(i.c, p.c) /\ DEq(i.dc, 0) /\ DEq(i.snorm, 0)
  /\ GNear(i.gmax, p.gmax, p) /\ GNear(i.gnorm, DSqrt(p.gn2), p)
  /\ i.lf = 0 /\ i.lg = 0 /\ i.li = 0
Accepted(i) == {k \in S : k.c.k = "ok" /\ k.c.pt.has
                  /\ DNear(i.step, k.c.pt.x, DLit("1e-9"), DAdd(DMul(2, k.p.serr), DMul(k.p.derr, k.c.pt.x)))}
NewPoint(k) == Point(k.c.pt.xv, k.c.pt.c, k.c.pt.gt, k.c.pt.ga)
Record(i, k, p) ==
  /\ i.it = Len(recs) /\ i.valid /\ i.succ
  /\ DEq(i.c, p.c) /\ DEq(i.dc, DSub(st.c, p.c))
  /\ GNear(i.gmax, p.gmax, p) /\ GNear(i.gnorm, DSqrt(p.gn2), p)
  /\ DNear(i.snorm, VNorm(VSub(p.x, st.x)), DLit("1e-12"), Tiny)
  /\ i.lf = ns /\ i.lg = (IF NeedsGrad THEN ns ELSE 0) /\ i.li = k.c.n
  \* descent
  /\ DLe(p.c, st.c)
GradV(p) == LeV(p.gmax, o.gtol, DAdd(DMul(DAdd(DLit("1e-11"), DMul(2, p.e)), p.gmax), DMul(DLit("4e-16"), VNorm(p.x))))
ParamV(i) == LET b == DMul(o.ptol, DAdd(VNorm(st.x), o.ptol)) IN LeV(i.snorm, b, DMul(DLit("1e-12"), b))
FuncV(i) == LeV(DAbs(i.dc), DMul(o.ftol, DAbs(st.c)), DMul(DLit("1e-14"), DMul(o.ftol, DAbs(st.c))))
\* Focus: C09 judges the searches and the points moved to, C22 the contract of a solve
Contract == "C22" \in Focus
Memory(x) == Contract => VEq(Ev.mem, IF o.upd THEN x ELSE IF o.ecb /\ prep # Nil THEN prep.x ELSE o.x0)
Take(k, i) == /\ pv' = [x |-> st.x, c |-> st.c, g |-> st.g, gn2 |-> st.gn2, e |-> st.e, dir |-> k.p.dir, step |-> i.step, err |-> k.p.derr]
              /\ st' = NewPoint(k) /\ hist' = k.p.hist /\ rest' = k.p.rest
Callback ==
  /\ Ev.op = "C" /\ (Contract => Ev.who = cbn)
  /\ ph \in {"gate0", "search", "cbs"}
  /\ told' = Ev.ret
  /\ ph' = IF Ev.ret # "GO" THEN "user" ELSE IF cbn + 1 = o.ncb THEN "run" ELSE "cbs"
  /\ cbn' = IF ph' = "run" THEN 0 ELSE cbn + 1
  /\ UNCHANGED <<nf, ng, init>>
  /\ CASE ph = "gate0" ->
            /\ Record0(Ev.i, st) /\ FALSE \in GradV(st)
            /\ recs' = <<Ev.i>> /\ VEq(Ev.mem, o.x0) /\ UNCHANGED <<st, pv, hist, rest, S, ns, shown>>
       [] ph = "search" ->
            /\ Accepted(Ev.i) # {}
            /\ LET k == CHOOSE k \in Accepted(Ev.i) : TRUE IN
               /\ Record(Ev.i, k, NewPoint(k))
               /\ FALSE \in GradV(NewPoint(k)) /\ FALSE \in ParamV(Ev.i) /\ FALSE \in FuncV(Ev.i)
               /\ Memory(k.c.pt.xv) /\ shown' = k.c.pt.xv
               /\ Take(k, Ev.i)
            /\ recs' = Append(recs, Ev.i) /\ S' = {} /\ ns' = 0
       [] OTHER -> /\ Ev.i = recs[Len(recs)] /\ Memory(shown)
                   /\ UNCHANGED <<st, pv, hist, rest, S, ns, recs, shown>>
\* the EvaluationCallback hears of every evaluation, at the point user memory shows
Truth == "C07" \in Focus
Prepared ==
  CASE Ev.op = "V" ->
         /\ Truth => o.ecb /\ (Ev.fresh \/ (prep # Nil /\ VEq(prep.x, Ev.x)))
         /\ prep' = [x |-> Ev.x, jac |-> Ev.jac, used |-> FALSE]
    [] Ev.op = "F" /\ o.ecb ->
         /\ Truth => prep # Nil /\ ~prep.used /\ VEq(prep.x, Ev.x) /\ (Ev.want => prep.jac)
         /\ prep' = [prep EXCEPT !.used = TRUE]
    [] OTHER -> UNCHANGED prep
\* what the solve leaves behind
Usable == Ev.term \in {"CONVERGENCE", "NO_CONVERGENCE", "USER_SUCCESS"}
Ends(p, its) ==
  /\ Ev.its = its
  /\ IF Usable THEN (Contract => VEq(Ev.mem, p.x)) /\ DEq(Ev.final, p.c) /\ DLe(Ev.final, Ev.initial)
     ELSE IF o.prob THEN Contract => VEq(Ev.mem, o.x0) ELSE Memory(shown)
  /\ init # "" => DEq(Ev.initial, init)
RECURSIVE Searched(_)
Searched(its) == IF its = <<>> THEN 0 ELSE Head(its).li + Searched(Tail(its))
Returned ==
  /\ Ev.op = "E" /\ ph \notin {"start", "cbs"} /\ ph' = "ended"
  /\ Contract => /\ Ev.np = N /\ Ev.ntp = NT /\ Ev.brief /\ Ev.msg
                 /\ ph # "lost" => Ev.nf = nf /\ Ev.ng = ng
                 /\ o.prob => Ev.nls = Searched(Ev.its) /\ Ev.ok = (IF Ev.its = <<>> THEN 0 ELSE Len(Ev.its) - 1)
  /\ UNCHANGED <<st, pv, hist, rest, S, ns, recs, cbn, told, shown, nf, ng, init>>
  /\ CASE ph = "lost" -> Usable => DLe(Ev.final, Ev.initial)
       [] ph = "dead" -> Ev.term = "FAILURE" /\ Ends(st, recs)
       [] ph = "gate0" -> Ev.term = "CONVERGENCE" /\ TRUE \in GradV(st) /\ Ends(st, recs)
       [] ph = "user" -> Ev.term = (IF told = "ABORT" THEN "USER_FAILURE" ELSE "USER_SUCCESS") /\ Ends(st, recs)
       [] ph = "run" ->
            IF Ev.term = "NO_CONVERGENCE" THEN It >= o.maxit /\ Ends(st, recs)
            ELSE /\ Ev.term = "FAILURE" /\ It < o.maxit /\ Ends(st, recs)
                 /\ \E k \in Starts : k.c.k \in {"fail", "lost"}
       [] OTHER -> \* in a search
            IF Ev.term = "FAILURE"
            THEN /\ \E k \in S : k.c.k = "fail" \/ TRUE \in LS!GivesUp(k.p, k.c)
                 /\ Ends(st, recs)
            ELSE /\ Ev.term = "CONVERGENCE" /\ Len(Ev.its) = Len(recs) + 1
                 /\ LET i == Ev.its[Len(Ev.its)] IN
                    /\ Accepted(i) # {}
                    /\ LET k == CHOOSE k \in Accepted(i) : TRUE IN
                       /\ Record(i, k, NewPoint(k))
                       /\ TRUE \in GradV(NewPoint(k)) \/ TRUE \in ParamV(i) \/ TRUE \in FuncV(i)
                       /\ Ends(NewPoint(k), Append(recs, i))
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Next == \/ Done
        \/ /\ l <= Len(Traces[t].ev)
           /\ IF ph = "lost" /\ Ev.op # "E"
              THEN UNCHANGED <<ph, st, pv, hist, rest, S, ns, recs, cbn, told, shown, nf, ng, init>>
              ELSE IF Ev.op = "V" THEN UNCHANGED <<ph, st, pv, hist, rest, S, ns, recs, cbn, told, shown, nf, ng, init>>
              ELSE Called \/ Refused \/ Callback \/ Returned
           /\ Prepared
           /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
================================================================================
