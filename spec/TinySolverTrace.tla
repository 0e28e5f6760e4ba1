---------------------------- MODULE TinySolverTrace ----------------------------
(* Recorded uses of TinySolver against TinySolver.tla, with the numbers.        *)
(* Events: S a solve begins; F the function was called; E the solve returned.   *)
EXTENDS TinySolver, Sequences, Dbl, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l,
  o,          \* the begin event: sizes and options
  at,         \* the evaluation at the current point (with J)
  at0,        \* the first one
  trial,      \* the evaluation of the latest trial point
  was,        \* the evaluation the latest trial started from
  u, v, uerr, \* damping, its growth factor, relative uncertainty of u
  scale
nvars == <<o, at, at0, trial, was, u, v, uerr, scale>>
vars == <<tsvars, nvars, t, l>>
Ev == Traces[t].ev[l]
Nil == <<>>
Init == /\ TSInit /\ t \in 1..Len(Traces) /\ l = 1
        /\ o = Nil /\ at = Nil /\ at0 = Nil /\ trial = Nil /\ was = Nil /\ u = 0 /\ v = 0 /\ uerr = 0 /\ scale = Nil

\* ------------------------------------------------------------ numbers
Cost2(e) == VDot(e.r, e.r)
N == o.n
Js(e) == [i \in 1..Len(e.J) |-> VMul(e.J[i], scale)]
Grad(e) == MTV(e.J, e.r, N)
MaxGrad(e) == VMaxAbs(Grad(e))
Damp(e) == LET q == MColSq(Js(e), N)
           IN [i \in 1..N |-> DMul(u, DMin(DMax(q[i], DLit("1e-6")), DLit("1e32")))]
Rhs(e) == VScale(-1, MTV(Js(e), e.r, N))
\* is d the damped step from e?  tol: rounding of the solve and of u
Frob2(M) == VDot(MColSq(M, N), [i \in 1..N |-> DInt(1)])
MaxOver(x) == VMaxAbs(x)
StepRight(e, f) ==
  LET J == Js(e)
      s == [i \in 1..N |-> DDiv(DSub(f.x[i], e.x[i]), scale[i])]
      Ds == VMul(Damp(e), s)
      res == VSub(VAdd(MTV(J, MV(J, s), N), Ds), Rhs(e))
      big == DAdd(Frob2(J), MaxOver(Damp(e)))
      noise == DDiv(DMul(DLit("4e-16"), DAdd(VNorm(e.x), VNorm(f.x))), DDiv(1, MaxOver([i \in 1..N |-> DDiv(1, scale[i])])))
      allow == DAdd(DAdd(DMul(DLit("1e-11"), DAdd(DMul(big, VNorm(s)), DMul(DSqrt(Frob2(J)), VNorm(e.r)))),
                         DMul(big, noise)),
                    DMul(uerr, VNorm(Ds)))
  IN DLe(VNorm(res), allow)
\* the ratio of actual to predicted decrease, and how well it is known
ModelChange(e, f) ==
  LET s == [i \in 1..N |-> DSub(f.x[i], e.x[i])]
      js == MV(e.J, s)
  IN DNeg(DAdd(DMul(2, VDot(js, e.r)), VDot(js, js)))
Change(e, f) == DSub(Cost2(e), Cost2(f))
Rho(e, f) == DDiv(Change(e, f), ModelChange(e, f))
RhoErr(e, f) == DAdd(DMul(DLit("1e-9"), DAbs(Rho(e, f))),
                     DAbs(DDiv(DMul(DLit("1e-14"), DAdd(Cost2(e), DAbs(Cost2(f)))), ModelChange(e, f))))
\* the prediction itself suffers from cancellation in x + dx
Vague(e, f) == DLe(ModelChange(e, f), DMul(DLit("1e-12"), Cost2(e)))
Factor(r) == LET w == DSub(DMul(2, r), 1) IN DMax(DDiv(1, 3), DSub(1, DMul(w, DMul(w, w))))
FactorErr(e, f) == LET w == DSub(DMul(2, Rho(e, f)), 1)
                   IN DAdd(DLit("1e-12"), DMul(20, DMul(DAdd(DMul(w, w), RhoErr(e, f)), RhoErr(e, f))))
GoodMaybe(e, f) == Vague(e, f) \/ DLt(DNeg(RhoErr(e, f)), Rho(e, f))
GoodSurely(e, f) == ~Vague(e, f) /\ DLt(RhoErr(e, f), Rho(e, f))

\* ------------------------------------------------------------ criteria
Slightly == DLit("1e-9")
More(x) == DMul(x, DAdd(1, Slightly))
Less(x) == DMul(x, DSub(1, Slightly))
GradSmall(e) == DLt(MaxGrad(e), More(o.gtol))
GradSurely(e) == DLt(MaxGrad(e), Less(o.gtol))
CostSmall(e) == DLt(DMul(DLit("0.5"), Cost2(e)), More(o.cthr))
CostSurely(e) == DLt(DMul(DLit("0.5"), Cost2(e)), Less(o.cthr))
\* change of cost, against a fraction of the old cost
ChangeSmall(e, f) == DLt(DAbs(Change(e, f)), DAdd(DMul(More(o.ftol), Cost2(e)), DMul(DLit("1e-14"), Cost2(e))))
ChangeSurely(e, f) == DLt(DAbs(Change(e, f)), DSub(DMul(Less(o.ftol), Cost2(e)), DMul(DLit("1e-14"), Cost2(e))))
\* length of the next step, when the system is well conditioned
NextStep(e) == LET D == Damp(e) IN
  VMul(scale, MSolve(Js(e), [i \in 1..N |-> DSqrt(D[i])], Rhs(e), N))
WellPosed(e) == LET D == Damp(e) IN
  VFin(e.r) /\ DLe(DLit("1e-4"), MRcond(Js(e), [i \in 1..N |-> DInt(1)], N)) /\ DLt(uerr, DLit("1e-3"))
StepLimit(e) == DMul(o.ptol, DAdd(VNorm(e.x), o.ptol))
StepSmall(e) == ~WellPosed(e) \/ DLe(VNorm(NextStep(e)), DMul(StepLimit(e), DAdd(DLit("1.000001"), DMul(10, uerr))))
StepSurely(e, f) == DLt(VNorm(VSub(f.x, e.x)),
                        DSub(Less(StepLimit(e)), DMul(DLit("1e-15"), DAdd(VNorm(e.x), VNorm(f.x)))))

\* ------------------------------------------------------------ events
Truthful == /\ VNear(Ev.r, Ev.tr, DLit("1e-12"), DLit("1e-9")) \/ ~VFin(Ev.tr)
            /\ Ev.j => ~VFin(Ev.tr) \/ \A i \in 1..Len(Ev.J) : VNear(Ev.J[i], Ev.tJ[i], DLit("1e-12"), DLit("1e-9"))
SolveBegins ==
  /\ Ev.op = "S" /\ Begin
  /\ o' = Ev /\ u' = DDiv(1, Ev.radius) /\ v' = DInt(2) /\ uerr' = DLit("1e-14")
  /\ at' = Nil /\ at0' = Nil /\ trial' = Nil /\ was' = Nil /\ scale' = Nil
Evaluated ==
  /\ Ev.op = "F" /\ Truthful
  /\ IF ph = "start"
     THEN /\ First /\ Ev.j /\ VEq(Ev.x, o.x0)
          /\ at' = Ev /\ at0' = Ev
          /\ scale' = LET q == MColSq(Ev.J, N) IN [i \in 1..N |-> DDiv(1, DAdd(1, DSqrt(q[i])))]
          /\ UNCHANGED <<o, trial, was, u, v, uerr>>
     ELSE IF Ev.j
     THEN \* the trial point is accepted
          /\ Take /\ Ev.x = trial.x /\ GoodMaybe(at, trial)
          /\ at' = Ev /\ was' = at
          /\ u' = DMul(u, Factor(Rho(at, trial))) /\ v' = DInt(2)
          /\ uerr' = DAdd(uerr, FactorErr(at, trial))
          /\ UNCHANGED <<o, at0, trial, scale>>
     ELSE \* a trial point, after a rejected one or not
          LET rejected == ph = "tried"
              u2 == IF rejected THEN DMul(u, v) ELSE u
          IN
          /\ IF rejected
             THEN /\ ~GoodSurely(at, trial) /\ ~ChangeSurely(at, trial)
                  /\ it + 1 < o.maxit /\ ph' = "tried" /\ it' = it + 1 /\ UNCHANGED why
             ELSE Try(o.maxit)
          \* nothing that should have stopped the solve
          /\ ~GradSurely(at) /\ ~CostSurely(at)
          /\ was # Nil /\ ~rejected => ~ChangeSurely(was, trial)
          /\ ~StepSurely(at, Ev)
          /\ u' = u2 /\ v' = IF rejected THEN DMul(v, 2) ELSE v
          /\ trial' = Ev
          /\ UNCHANGED <<o, at, at0, was, uerr, scale>>
Returned ==
  /\ Ev.op = "E" /\ Stop(Ev.status)
  /\ Ev.fresh
  /\ VEq(Ev.x, at.x) \/ ~VFin(at.x)
  /\ VFin(at.r) =>
       /\ VEq(Ev.r, at.r) /\ \A i \in 1..Len(at.J) : VNear(Ev.J[i], at.J[i], DLit("1e-12"), DLit("1e-300"))
       /\ DNear(Ev.final, DMul(DLit("0.5"), Cost2(at)), DLit("1e-12"), DLit("1e-300"))
       /\ DNear(Ev.initial, DMul(DLit("0.5"), Cost2(at0)), DLit("1e-12"), DLit("1e-300"))
       /\ DLe(Ev.final, DMul(Ev.initial, DLit("1.0000000001")))
       /\ DNear(Ev.gmax, MaxGrad(at), DLit("1e-9"), DMul(DLit("1e-11"), DMul(DSqrt(Frob2(at.J)), VNorm(at.r))))
  /\ LET rejected == ph = "tried"
         \* a stop inside an iteration counts it; the others begin the next one
         inside == rejected \/ (it > 0 /\ Ev.status # "STEP" /\ Ev.status # "MAX")
     IN
     CASE Ev.status = "GRADIENT" -> ~rejected /\ GradSmall(at) /\ Ev.iters = it
       [] Ev.status = "COST" -> ~rejected /\ CostSmall(at) /\ Ev.iters = it
       [] Ev.status = "CHANGE" ->
            /\ it > 0 /\ Ev.iters = it
            /\ IF rejected THEN ~GoodSurely(at, trial) /\ ChangeSmall(at, trial)
               ELSE was # Nil /\ ChangeSmall(was, trial)
       [] Ev.status = "STEP" ->
            /\ it + 1 < o.maxit /\ Ev.iters = it + 1
            /\ rejected \/ StepSmall(at)
            /\ rejected => ~GoodSurely(at, trial) /\ ~ChangeSurely(at, trial)
       [] Ev.status = "MAX" ->
            /\ it + 1 >= o.maxit /\ Ev.iters = it + 1
            /\ ~GradSurely(at) /\ ~CostSurely(at)
            /\ rejected => ~GoodSurely(at, trial) /\ ~ChangeSurely(at, trial)
            /\ ~rejected /\ was # Nil => ~ChangeSurely(was, trial)
  /\ UNCHANGED nvars
\* steps are checked in the state after the trial, where u is the one it used
StepsRight == (ph = "tried" /\ VFin(at.r)) => StepRight(at, trial)
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Next == \/ Done
        \/ /\ l <= Len(Traces[t].ev) /\ (SolveBegins \/ Evaluated \/ Returned)
           /\ l' = l + 1 /\ UNCHANGED t
           \* the trial just made is the damped step
           /\ (Ev.op = "F" /\ ph' = "tried") => StepsRight'
Spec == Init /\ [][Next]_vars
=============================================================================
