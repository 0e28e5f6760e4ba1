-------------------------- MODULE TrustRegionTrace --------------------------
(* Conformance of recorded trust region solves with TrustRegion.tla.  Events: *)
(*  P  an evaluation: point, derivatives wanted, announced as new, failures   *)
(*  C  an iteration callback: the summary it was given, what it answered      *)
(*  E  Solve returned                                                         *)
(* Focus says which properties are decided; for the others the recorded       *)
(* values are taken as they come, so that a check answers for its own         *)
(* property.                                                                  *)
EXTENDS TrustRegion, StepEvaluator, Json, IOUtils, TLC
CONSTANT Focus

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l,
  cbi, ret,   \* callbacks already run for this iteration, the last answer
  radius, factor, mu,
  se,         \* step evaluator
  scale,      \* column scaling of the Jacobian
  lastp,      \* point of the latest evaluation
  trial,      \* events of the current trial, the last one is the candidate
  rep,        \* last reported summary (<<>> before the first)
  pre,        \* evaluation of the fixed residual blocks still to come
  c0          \* cost of the starting point (<<>> before it is known)
nvars == <<cbi, ret, radius, factor, mu, se, scale, lastp, trial, rep, pre, c0>>
tvars == <<trvars, nvars, t, l>>

O == Traces[t].opt
Ev == Traces[t].ev[l]
Pt(i) == Traces[t].pts[i]
Close(a, b) == DNear(a, b, DLit("1e-12"), DLit("1e-300"))
Chk(p, cond) == IF p \in Focus THEN cond ELSE TRUE

TInit == /\ TRInit /\ t \in 1..Len(Traces) /\ l = 1
         /\ cbi = 0 /\ ret = 0 /\ radius = O.initr /\ factor = DInt(2) /\ mu = DLit("1e-8")
         /\ se = <<>> /\ scale = <<>> /\ lastp = 0 /\ trial = <<>> /\ rep = <<>> /\ c0 = <<>>
         /\ pre = (O.ecb /\ O.nfixed > 0)

\* ------------------------------------------------------------ evaluations
\* does the evaluation event e fail?  some modes spoil only derivatives
BadCost == {1, 2, 4, 5, 7}
BadDer == {3, 6, 8}
Fails(e) == e.p = 0 \/ e.bad \in BadCost \/ (e.bad \in BadDer /\ e.j) \/ ~Pt(e.p).ok
\* what every evaluation must respect
EvalOk(e, n) ==
  /\ Chk("C07", O.ecb => /\ e.st
                         /\ e.nj > 0 => e.j
                         /\ (~e.nw) => e.p = lastp
                         /\ e.n <= n
                         /\ (~Fails(e)) => e.n = n)
  \* without a callback the user's memory is not touched while solving
  /\ Chk("C06", (~O.ecb) => e.st /\ e.um = (IF O.upd /\ best # NoPoint THEN best ELSE O.x0))
  /\ Chk("C04", e.p # 0 => /\ (ph # "start" \/ ~pre) => VIn(O.lo, Pt(e.p).x, O.hi)
                           /\ Pt(e.p).rest = Pt(O.x0).rest
                           /\ \A a \in 1..Len(O.fi) : O.fi[a] = 0 => Pt(e.p).x[a] = Pt(O.x0).x[a])
Cost(e) == IF Fails(e) THEN DMaxValue ELSE Pt(e.p).c

\* ------------------------------------------------------------ numbers
N == O.n
Tiny == DLit("1e-300")
Ones == [i \in 1..N |-> DInt(1)]
FNorm(J) == LET q == MColSq(J, N) IN DSqrt(VDot(q, [i \in 1..N |-> DInt(1)]))
ScaleAt(p) == IF ~O.jsc THEN Ones
              ELSE LET q == MColSq(Pt(p).J, N)
                   IN [i \in 1..N |-> DDiv(1, DAdd(1, DSqrt(q[i])))]
\* the diagonal of the (scaled) model, squared
Diag2(p) == LET q == MColSq(Pt(p).J, N)
            IN [i \in 1..N |-> DMin(DMax(DMul(DMul(scale[i], scale[i]), q[i]), O.mind), O.maxd)]
\* regulariser of the unscaled step: LM uses diag/radius, dogleg mu*diag
Reg(p, w) == LET d == Diag2(p) IN [i \in 1..N |-> DDiv(DSqrt(DMul(d[i], w)), scale[i])]
\* trust region metric of the unscaled step (dogleg)
Metric(p) == LET d == Diag2(p) IN [i \in 1..N |-> DDiv(DSqrt(d[i]), scale[i])]
Step(p, e) == IF O.man THEN e.d
              ELSE [i \in 1..N |-> DSub(Pt(e.p).x[O.ti[i]], Pt(p).x[O.ti[i]])]
ModelChange(p, d) == LET jd == MV(Pt(p).J, d)
                     IN DNeg(VDot(jd, VAdd(Pt(p).r, VScale(DLit("0.5"), jd))))
\* how exactly the step can be read off the points
Noise(p, e) == DMul(DLit("1e-14"), DAdd(VNorm(Pt(p).x), VNorm(Pt(e.p).x)))

\* gradient of the regularised model at d, relative to its size
LMOptimal(p, e, tol) ==
  LET d == Step(p, e)
      D == Reg(p, DDiv(1, radius))
      D2d == VMul(D, VMul(D, d))
      res == VAdd(VAdd(MTV(Pt(p).J, MV(Pt(p).J, d), N), D2d), Pt(p).g)
      jn == FNorm(Pt(p).J)
      big == DAdd(DMul(jn, jn), DMul(VMaxAbs(D), VMaxAbs(D)))
      size == DAdd(DMul(big, VNorm(d)), DMul(jn, VNorm(Pt(p).r)))
  IN DLe(VNorm(res), DAdd(DMul(tol, size), DMul(big, Noise(p, e))))
LMStep(p) == MSolve(Pt(p).J, Reg(p, DDiv(1, radius)), VScale(-1, Pt(p).g), N)

\* Gauss-Newton step of the dogleg strategy for regularisation w
GN(p, w) == MSolve(Pt(p).J, Reg(p, w), VScale(-1, Pt(p).g), N)
\* the dogleg step, as a step of the unscaled problem; M the metric
Dogleg(p, w) ==
  LET M == Metric(p)
      gn == GN(p, w)
      gnM == VMul(M, gn)
      gM == [i \in 1..N |-> DDiv(Pt(p).g[i], M[i])]      \* scaled gradient
      gg == VNorm(gM)
      jg == MV(Pt(p).J, [i \in 1..N |-> DDiv(gM[i], M[i])])
      alpha == DDiv(DMul(gg, gg), VDot(jg, jg))
      un(v) == [i \in 1..N |-> DDiv(v[i], M[i])]
  IN IF DLe(VNorm(gnM), radius) THEN gn
     ELSE IF DLe(radius, DMul(gg, alpha)) THEN un(VScale(DNeg(DDiv(radius, gg)), gM))
     ELSE LET a == VScale(DNeg(alpha), gM)
              diff == VSub(gnM, a)
              A == VDot(diff, diff)
              B == VDot(a, diff)
              C == DSub(VDot(a, a), DMul(radius, radius))
              disc == DSqrt(DMax(0, DSub(DMul(B, B), DMul(A, C))))
              beta == IF DLe(B, 0) THEN DDiv(DSub(disc, B), A) ELSE DDiv(DNeg(C), DAdd(disc, B))
          IN un(VAdd(a, VScale(beta, diff)))
\* regularisations the strategy may be using now: it multiplies by ten until
\* the linear solver succeeds
MuAt(j) == DMul(mu, DPow(10, j))
\* well conditioned: the dogleg path can be predicted
WellPosed(p) == DLe(DLit("1e-3"), MRcond(Pt(p).J, Metric(p), N))

StepTol == IF O.exact THEN DLit("1e-7") ELSE DLit("1e-5")
NormM(p, d) == VNorm(VMul(Metric(p), d))
DoglegOk(p, e, w) ==
  LET d == Step(p, e)
      want == Dogleg(p, w)
      slack == DAdd(DMul(DLit("1e-4"), VNorm(want)), DMul(DInt(10), Noise(p, e)))
  IN IF O.strat = "DL" THEN DLe(VNorm(VSub(d, want)), slack)
     ELSE LET M == Metric(p)
              gnM == VMul(M, GN(p, w))
          IN /\ DLe(NormM(p, d), DAdd(DMul(radius, DLit("1.0001")), DMul(VMaxAbs(M), Noise(p, e))))
             /\ DLe(VNorm(gnM), DMul(radius, DLit("0.9999"))) => DLe(VNorm(VSub(d, want)), slack)
             \* never a worse model value than the dogleg path
             /\ DLe(DMul(DLit("0.999"), ModelChange(p, want)),
                    DAdd(ModelChange(p, d), DAdd(DMul(DLit("1e-12"), Pt(p).c),
                             DMul(DInt(100), DMul(Noise(p, e), DAdd(VNorm(Pt(p).g),
                                DMul(Noise(p, e), DPow(FNorm(Pt(p).J), 2))))))))
\* on the sphere a long step cannot be read off its end point
Wraps(p, e) == O.man /\ DLt(2, DMax(VMaxAbs(e.d), VMaxAbs(IF O.strat = "LM" THEN LMStep(p) ELSE GN(p, DLit("1e-8")))))
\* the step of the trial that starts at x
StepOk(p, e) ==
  IF e.p = 0 \/ ~Pt(p).ok \/ N = 0 \/ Wraps(p, e) THEN TRUE
  ELSE IF O.con THEN TRUE
  ELSE IF O.strat = "LM" THEN (O.exact \/ DLt(O.eta, DLit("1e-10"))) => LMOptimal(p, e, StepTol)
  ELSE WellPosed(p) => \E j \in 0..8 : DoglegOk(p, e, MuAt(j))
\* with bounds, the first point tried is the clamped step
FirstTryOk(p, e) ==
  IF e.p = 0 \/ ~O.con \/ O.strat # "LM" \/ ~O.exact THEN TRUE
  ELSE LET d == LMStep(p)
           lift == [a \in 1..Len(O.fi) |-> IF O.fi[a] = 0 THEN DInt(0) ELSE d[O.fi[a]]]
           want == VClamp(O.lo, VAdd(Pt(p).x, lift), O.hi)
       IN VNear(Pt(e.p).x, want, DLit("1e-5"), DLit("1e-7"))

\* predicted decrease for the trial, or <<>> if it cannot be told
TrialChange(p, e) ==
  IF e.p = 0 \/ Wraps(p, e) THEN <<>>
  ELSE IF ~O.con THEN <<ModelChange(p, Step(p, e))>>
  ELSE IF O.strat = "LM" /\ O.exact THEN <<ModelChange(p, LMStep(p))>>
  ELSE <<>>

CostSlack(a, b) == DMul(DLit("1e-12"), DMax(DAbs(a), DAbs(b)))
CostNear(a, b) == DNear(a, b, DLit("1e-11"), DLit("1e-300"))

\* ------------------------------------------------------------ criteria
Cand == trial[Len(trial)]
StepNorm(p, e) == VNorm(VSub(Pt(p).x, Pt(e.p).x))
FtolLimit == DMul(O.ftol, DSub(xc, O.fixc))
FChange(e) == DAbs(DSub(xc, Cost(e)))
FtolMay(e) == DLe(FChange(e), DAdd(DMul(FtolLimit, DLit("1.000000001")), DMul(DLit("1e-13"), xc)))
FtolMust(e) == DLt(FChange(e), DSub(DMul(FtolLimit, DLit("0.999999999")), DMul(DLit("1e-13"), xc)))
PtolLimit == DMul(O.ptol, DAdd(VNorm(Pt(x).x), O.ptol))
PtolMay(e) == any /\ (e.p = 0 \/ DLe(StepNorm(x, e), DMul(PtolLimit, DLit("1.000000001"))))
PtolMust(e) == any /\ e.p # 0 /\ DLt(StepNorm(x, e), DMul(PtolLimit, DLit("0.999999999")))
MayConverge == FtolMay(Cand) \/ PtolMay(Cand)
MustConverge == FtolMust(Cand) \/ PtolMust(Cand)

\* ------------------------------------------------------------ after callbacks
Types == <<"CONVERGENCE", "NO_CONVERGENCE", "FAILURE", "USER_SUCCESS", "USER_FAILURE">>
EvType == Types[Ev.type + 1]
Criterion == IF ret = 1 THEN "USER_FAILURE" ELSE IF ret = 2 THEN "USER_SUCCESS"
             ELSE IF O.tz \/ k >= O.maxit THEN "NO_CONVERGENCE"
             ELSE IF ok /\ DLe(rep.gm, O.gtol) THEN "CONVERGENCE"
             ELSE IF DLe(rep.rad, O.minr) THEN "CONVERGENCE" ELSE "none"
CallbacksDone == ph = "called" /\ (cbi = O.ncb \/ ret # 0)
GoOn == /\ CallbacksDone
        /\ Chk("C06", ret = 0 /\ k < O.maxit /\ ~O.tz)
        /\ Chk("C05", Criterion = "none")

\* ------------------------------------------------------------ events
Eat == l' = l + 1 /\ UNCHANGED t
Internal == UNCHANGED <<t, l>>
\* evaluation of the fixed residual blocks, before the solve proper
EvPre ==
  /\ Ev.op = "P" /\ pre /\ ph = "start" /\ Eat
  /\ EvalOk(Ev, O.nfixed)
  /\ Chk("C07", Ev.nw /\ Ev.p = O.x0)
  /\ pre' = FALSE /\ lastp' = Ev.p
  /\ IF Ev.bad \in BadCost \/ ~O.fixok THEN StartFail ELSE UNCHANGED trvars
  /\ UNCHANGED <<cbi, ret, radius, factor, mu, se, scale, trial, rep, c0>>
StartPoint(p) == VEq(Pt(p).x, VClamp(O.lo, Pt(O.x0).x, O.hi))
EvStart ==
  /\ Ev.op = "P" /\ ~pre /\ ph = "start" /\ Eat
  /\ EvalOk(Ev, O.nfree)
  /\ Ev.j /\ Ev.nw
  /\ Chk("C04", Ev.p # 0 => StartPoint(Ev.p))
  /\ lastp' = Ev.p
  /\ IF Fails(Ev) THEN StartFail /\ UNCHANGED <<se, scale, c0>>
     ELSE /\ StartOk(Ev.p, Pt(Ev.p).c) /\ c0' = <<Pt(Ev.p).c>>
          /\ se' = SEInit(Pt(Ev.p).c)
          /\ scale' = ScaleAt(Ev.p)
  /\ UNCHANGED <<cbi, ret, radius, factor, mu, trial, rep, pre>>
EvTry ==
  /\ Ev.op = "P" /\ GoOn /\ Eat
  /\ EvalOk(Ev, O.nfree) /\ Ev.nw
  /\ (~(O.con /\ O.lsm > 0)) => ~Ev.j
  /\ Chk("C05", StepOk(x, Ev) /\ FirstTryOk(x, Ev))
  /\ Try(Ev.p)
  /\ trial' = <<Ev>> /\ lastp' = Ev.p
  /\ UNCHANGED <<cbi, ret, radius, factor, mu, se, scale, rep, pre, c0>>
EvRetry ==
  /\ Ev.op = "P" /\ ph = "trial" /\ O.con /\ O.lsm > 0 /\ Eat
  /\ EvalOk(Ev, O.nfree) /\ Ev.nw
  /\ (~O.ecb) => Cand.j       \* probes have derivatives, the candidate does not
  /\ Retry(Ev.p)
  /\ trial' = Append(trial, Ev) /\ lastp' = Ev.p
  /\ UNCHANGED <<cbi, ret, radius, factor, mu, se, scale, rep, pre, c0>>
\* moving to the candidate: derivatives at the same point
EvAccept ==
  /\ Ev.op = "P" /\ ph = "trial" /\ Ev.j /\ Eat
  /\ IF Ev.p = 0 THEN TRUE ELSE Ev.p = cand
  /\ O.ecb => ~Ev.nw
  /\ ~Cand.j
  /\ Chk("C08", ~Fails(Cand))
  /\ Chk("C05", ~MustConverge)
  /\ EvalOk(Ev, O.nfree)
  /\ lastp' = Ev.p
  /\ IF Fails(Ev) THEN AcceptFail ELSE Accept(Pt(Ev.p).c)
  /\ UNCHANGED <<cbi, ret, radius, factor, mu, se, scale, trial, rep, pre, c0>>
\* the next event is a callback for an unsuccessful iteration
DoReject ==
  /\ Ev.op = "C" /\ Ev.i = 1 /\ ph = "trial" /\ ~Cand.j /\ Internal
  /\ Chk("C05", ~MustConverge)
  /\ Reject /\ UNCHANGED nvars
\* a step could be computed if the problem is well conditioned and the
\* gradient is not negligible
Impossible ==
  LET D == Reg(x, DDiv(1, radius))
      jn == FNorm(Pt(x).J)
      gn == VNorm(Pt(x).g)
      big == DAdd(DMul(jn, jn), DMul(VMaxAbs(D), VMaxAbs(D)))
      small == \E i \in 1..N : DLt(DMul(D[i], D[i]), DMul(DLit("1e-11"), big))
  IN ~small /\ O.exact /\ O.strat = "LM" /\
     DLt(DMul(DLit("1e-7"), Pt(x).c), DDiv(DMul(gn, gn), big))
DoInvalid ==
  /\ Ev.op = "C" /\ Ev.i = 1 /\ GoOn /\ Internal
  /\ Chk("C05", ~Impossible)
  /\ IF "C05" \in Focus THEN InvalidStep(O.maxinv) ELSE InvalidStep(1000000)
  /\ trial' = <<>>
  /\ UNCHANGED <<cbi, ret, radius, factor, mu, se, scale, lastp, rep, pre, c0>>

Fresh == rep = <<>>          \* this is iteration 0
TookTrial == trial # <<>> /\ ~Fresh
\* the radius after the iteration being reported
NewRadius(s, q) ==
  IF Fresh THEN <<O.initr>>
  ELSE IF O.strat = "LM"
  THEN IF s.succ
       THEN <<DMin(O.maxr, DDiv(radius, DMax(DDiv(1, 3), DSub(1, DPow(DSub(DMul(2, q), 1), 3)))))>>
       ELSE <<DDiv(radius, factor)>>
  ELSE IF ~TookTrial THEN <<radius>>
  ELSE IF ~s.succ THEN <<DMul(radius, DLit("0.5"))>>
  ELSE LET r1 == IF DLt(q, DLit("0.25")) THEN DMul(radius, DLit("0.5")) ELSE radius
       IN IF DLt(DLit("0.75"), q)
          THEN IF O.con \/ Wraps(rep.x, Cand) \/ ~WellPosed(rep.x) THEN <<>>
               ELSE <<DMin(O.maxr, DMax(r1, DMul(3, NormM(rep.x, Step(rep.x, Cand)))))>>
          ELSE <<r1>>
RadiusOk(s) ==
  LET w == NewRadius(s, s.rd) IN
  /\ DLe(s.rad, DMul(O.maxr, DLit("1.0000000001")))
  /\ IF w # <<>> THEN DNear(s.rad, w[1], DLit("1e-6"), Tiny)
     ELSE DLe(radius, s.rad) /\ DLe(s.rad, DMul(DLit("3.0001"), radius))

\* the quality reported for the trial from point p (where the iteration began)
QualityOk(p, s) ==
  LET e == Cand m == TrialChange(p, e) IN
  IF Fails(e) THEN s.rd = DLowest
  ELSE IF m = <<>> \/ se = <<>> THEN TRUE
  ELSE LET q == Quality(se, Cost(e), m[1])
           slack == DAdd(DLit("1e-9"), DDiv(DMul(DLit("1e-11"),
                       DAdd(Pt(p).c, DAdd(se.cur, DMul(VNorm(Pt(p).g), VNorm(Pt(p).x))))), m[1]))
       IN DLe(m[1], 0) \/ DNear(s.rd, q, IF O.con THEN DLit("1e-4") ELSE DLit("1e-5"), slack)

GradSlack(p) == DAdd(Tiny, DMul(DLit("1e-11"), DAdd(DMul(FNorm(Pt(p).J), VNorm(Pt(p).r)),
                                                    DMul(DLit("1e-3"), VNorm(Pt(p).x)))))
\* the summary handed to the callbacks tells what happened.  p: where the
\* iteration began; x: where it ended
SummaryOk(p, s) ==
  /\ s.k = k
  /\ s.succ = ok
  /\ IF ok
     THEN /\ s.valid
          /\ CostNear(s.cost, xc)
          /\ DNear(s.gm, Pt(x).gm, DLit("1e-7"), GradSlack(x))
          /\ DNear(s.gn, Pt(x).gn, DLit("1e-7"), GradSlack(x))
          /\ s.nonm = (best # NoPoint /\ ~CLt(xc, bestc)) \/ CloseCall
     ELSE /\ s.gm = rep.gm /\ s.gn = rep.gn
          /\ s.valid = TookTrial
          /\ IF TookTrial THEN CostNear(s.cost, IF Fails(Cand) THEN DMaxValue ELSE Cost(Cand))
             ELSE CostNear(s.cost, xc)
          /\ s.nonm = FALSE
  /\ IF TookTrial
     THEN /\ DNear(s.cc, DSub(rep.xc, Cost(Cand)), DLit("1e-9"), CostSlack(rep.xc, IF Fails(Cand) THEN DInt(0) ELSE Cost(Cand)))
          /\ Cand.p # 0 => DNear(s.sn, StepNorm(p, Cand), DLit("1e-9"), Tiny)
          /\ QualityOk(p, s)
          /\ s.succ = DLt(O.mrd, s.rd)
     ELSE DEq(s.cc, 0) /\ DEq(s.sn, 0) /\ DEq(s.rd, 0)

Memory == IF O.upd THEN best'
          ELSE IF O.ecb THEN lastp
          ELSE O.x0
\* a close call goes the way the user's memory shows
Shown == IF O.upd THEN Ev.m ELSE Traces[t].ev[Len(Traces[t].ev)].m
Resolved == best' = IF Shown \in {x, best} THEN Shown ELSE IF CLt(xc, bestc) THEN x ELSE best
EvCallback1 ==
  /\ Ev.op = "C" /\ Ev.i = 1 /\ ph = "report" /\ Eat
  /\ Report /\ (ok /\ CloseCall => Resolved)
  /\ LET s == Ev.s p == IF Fresh THEN x ELSE rep.x IN
     /\ Chk("C05", SummaryOk(p, s))
     /\ Chk("C05", RadiusOk(s))
     /\ Chk("C06", s.k = k /\ s.succ = ok)
     /\ Chk("C06", O.upd => Ev.m = best')
     /\ Chk("C06", (~O.upd /\ ~O.ecb) => Ev.m = O.x0)
     /\ Chk("C07", (O.ecb /\ ~O.upd) => Ev.m = lastp)
     /\ Chk("C08", ok => DFin(s.cost))
     /\ radius' = s.rad
     /\ factor' = IF ok THEN DInt(2) ELSE DMul(factor, 2)
     /\ mu' = IF Fresh \/ O.strat = "LM" THEN mu
              ELSE IF ok THEN DMax(DLit("1e-8"), DMul(mu, DLit("0.2")))
              ELSE IF ~TookTrial THEN DMul(mu, 10) ELSE mu
     \* (once the predicted decrease is unknown so is the evaluator, unless
     \* steps are monotonic)
     /\ se' = IF "C05" \notin Focus \/ ~ok \/ ~TookTrial THEN se
              ELSE IF O.win = 0 THEN SEInit(Cost(Cand))
              ELSE IF se = <<>> \/ TrialChange(p, Cand) = <<>> THEN <<>>
              ELSE StepTaken(se, Cost(Cand), TrialChange(p, Cand)[1], O.win)
     /\ rep' = [gm |-> s.gm, gn |-> s.gn, rad |-> s.rad, x |-> x, xc |-> xc]
  /\ cbi' = 1 /\ ret' = Ev.ret /\ trial' = <<>>
  /\ UNCHANGED <<scale, lastp, pre, c0>>
EvCallbackN ==
  /\ Ev.op = "C" /\ Ev.i > 1 /\ ph = "called" /\ ~CallbacksDone /\ Eat
  /\ Chk("C06", /\ Ev.i = cbi + 1
                /\ Ev.s = Traces[t].ev[l - 1].s
                /\ Ev.m = Traces[t].ev[l - 1].m)
  /\ cbi' = Ev.i /\ ret' = Ev.ret
  /\ UNCHANGED <<trvars, radius, factor, mu, se, scale, lastp, trial, rep, pre, c0>>

\* ---- endings
DoStop ==
  /\ Ev.op = "E" /\ CallbacksDone /\ Internal
  /\ Chk("C06", ret # 0 => EvType = Criterion)
  /\ Chk("C06", ret = 0 => EvType \notin {"USER_SUCCESS", "USER_FAILURE"})
  /\ EvType # "FAILURE"
  /\ Chk("C05", EvType = Criterion)
  /\ StopCalled(EvType)
  /\ UNCHANGED nvars
DoTooMany ==
  /\ Ev.op = "E" /\ GoOn /\ Internal
  /\ EvType = "FAILURE"
  /\ IF "C05" \in Focus THEN ~Impossible /\ TooManyInvalid(O.maxinv) ELSE TooManyInvalid(0)
  /\ UNCHANGED nvars
DoConverge ==
  /\ Ev.op = "E" /\ ph = "trial" /\ Internal
  /\ ~Cand.j
  /\ EvType = "CONVERGENCE"
  /\ Chk("C05", MayConverge)
  /\ Converge
  /\ UNCHANGED nvars
\* no evaluation took place
Feasible == VFin(Pt(O.x0).x) /\ VFin(Pt(O.x0).rest)
DoNothing ==
  /\ Ev.op = "E" /\ ph = "start" /\ Internal
  /\ IF O.n = 0 /\ O.nfree = 0 /\ O.fixok /\ EvType = "CONVERGENCE"
     THEN /\ ph' = "over" /\ out' = "CONVERGENCE" /\ best' = O.x0
          /\ UNCHANGED <<x, xc, bestc, cand, k, ok, ns, nu, inv, any>>
     ELSE StartFail /\ (Feasible => ~O.fixok)
  /\ UNCHANGED nvars

\* evaluations with and without derivatives (not counting the fixed blocks)
Evals(j) == Cardinality({i \in 1..Len(Traces[t].ev) : LET e == Traces[t].ev[i] IN e.op = "P" /\ e.j = j})
            - (IF ~j /\ O.nfixed > 0 /\ O.ecb THEN 1 ELSE 0)
EvEnd ==
  /\ Ev.op = "E" /\ ph = "over" /\ Eat
  /\ ~Ev.fatal
  /\ EvType = out
  /\ Ev.use = Usable(out)
  /\ Chk("C04", Ev.m = FinalPoint(O.x0))
  /\ Chk("C08", Ev.m = FinalPoint(O.x0))
  /\ Chk("C04", (Usable(out) /\ rep # <<>>) =>
        /\ CostNear(Ev.fin, Pt(Ev.m).c)
        /\ ~DLt(Ev.init, Ev.fin)
        /\ VIn(O.lo, Pt(Ev.m).x, O.hi))
  /\ Chk("C04", rep # <<>> => CostNear(Ev.init, c0[1]))
  /\ Chk("C06", /\ rep # <<>> => Ev.nits = k + (IF ph = "over" /\ rep # <<>> THEN 1 ELSE 0)
                /\ rep = <<>> => Ev.nits = 0
                /\ Ev.same /\ rep # <<>> => Ev.ns = ns /\ Ev.nu = nu
                /\ rep # <<>> => Ev.nre = Evals(FALSE) /\ Ev.nje = Evals(TRUE))
  /\ Chk("C07", O.ecb => Ev.stray = 0)
  /\ Chk("C08", Usable(out) => /\ DFin(Ev.fin) /\ VFin(Pt(Ev.m).x) /\ Pt(Ev.m).ok)
  /\ UNCHANGED <<trvars, nvars>>
Done == l > Len(Traces[t].ev) /\ UNCHANGED tvars

TNext == \/ Done
         \/ /\ l <= Len(Traces[t].ev)
            /\ \/ EvPre \/ EvStart \/ EvTry \/ EvRetry \/ EvAccept \/ DoReject \/ DoInvalid
               \/ EvCallback1 \/ EvCallbackN \/ DoStop \/ DoTooMany \/ DoConverge \/ DoNothing \/ EvEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
