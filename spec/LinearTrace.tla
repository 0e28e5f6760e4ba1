---------------------------- MODULE LinearTrace ----------------------------
(* Recorded use of linear solvers.                                            *)
(*  M  one linear solver is given systems; each solution is judged            *)
(*  S  one problem is solved under several configurations: the preparation    *)
(*     is judged against LinearSetup, and every step against the normal       *)
(*     equations of the point it was taken from                               *)
EXTENDS LinearSetup, Dbl, Json, IOUtils, TLC, Integers
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, c, s
\* c configuration, s state of its solve
vars == <<t, l, c, s>>
Ev == Traces[t].ev[l]
H == Traces[t].head
Eat == l' = l + 1 /\ UNCHANGED t
Idle == [at |-> "idle"]
Init == t \in 1..Len(Traces) /\ l = 1 /\ c = <<>> /\ s = Idle

\* ------------------------------------------------------------------ systems
Lit(x) == DLit(x)
Ones(n) == [i \in 1..n |-> DInt(1)]
FNorm(J, n) == DSqrt(VDot(MColSq(J, n), Ones(n)))
Diag(e) == IF e.D = <<>> THEN [i \in 1..e.n |-> DInt(0)] ELSE e.D
\* 1 / condition number of the matrix A above the diagonal matrix D
Rcond(A, D, n) == MRcond(A \o [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN D[i] ELSE DInt(0)]], Ones(n), n)
\* the rows a subset preconditioner is made of need not have full rank
Sound(e) == /\ c.pre = "SUBSET" => e.D # <<>>
            /\ DLe(IF c.iterative \/ c.mixed THEN Lit("1e-2") ELSE Lit("1e-3"), Rcond(e.A, Diag(e), e.n))
SystemTol == IF c.mixed \/ c.iterative THEN Lit("1e-6") ELSE Lit("1e-8")
SolveOk(e) ==
  /\ e.same
  /\ e.end # "FATAL_ERROR"
  /\ Sound(e) =>
       LET want == MSolve(e.A, Diag(e), MTV(e.A, e.b, e.n), e.n)
           slack == DMul(SystemTol, DAdd(VNorm(want), Lit("1e-6")))
       IN /\ e.end # "FAILURE"
          /\ VFin(e.x)
          /\ DLe(VNorm(VSub(e.x, want)), slack)
EvSolver == Ev.ev = "solver" /\ s = Idle /\ c' = Ev /\ Eat /\ UNCHANGED s
EvSolve == Ev.ev = "solve" /\ c # <<>> /\ SolveOk(Ev) /\ Eat /\ UNCHANGED <<c, s>>

\* -------------------------------------------------------------------- steps
Pt(i) == H.pts[i]
N == Len(H.ti)
ScaleAt(p) == IF ~c.jsc THEN Ones(N)
              ELSE LET q == MColSq(Pt(p).J, N) IN [i \in 1..N |-> DDiv(1, DAdd(1, DSqrt(q[i])))]
Reg(p) == LET q == MColSq(Pt(p).J, N)
              d == [i \in 1..N |-> DMin(DMax(DMul(DMul(s.scale[i], s.scale[i]), q[i]), c.mind), c.maxd)]
          IN [i \in 1..N |-> DDiv(DSqrt(DMul(d[i], DDiv(1, s.radius))), s.scale[i])]
Noise(p, e) == DMul(Lit("1e-14"), DAdd(VNorm(Pt(p).x), VNorm(Pt(e).x)))
Step(p, e) == [i \in 1..N |-> DSub(Pt(e).x[H.ti[i]], Pt(p).x[H.ti[i]])]
StepTol == IF c.iterative \/ c.mixed THEN Lit("1e-5") ELSE Lit("1e-7")
\* nothing but the active coordinates may move
Held(p, e) == \A i \in 1..Len(Pt(p).x) : (\A k \in 1..N : H.ti[k] # i) => Pt(e).x[i] = Pt(p).x[i]
StepOk(p, e) ==
  LET d == Step(p, e)
      D == Reg(p)
      res == VAdd(VAdd(MTV(Pt(p).J, MV(Pt(p).J, d), N), VMul(D, VMul(D, d))), Pt(p).g)
      jn == FNorm(Pt(p).J, N)
      big == DAdd(DMul(jn, jn), DMul(VMaxAbs(D), VMaxAbs(D)))
      size == DAdd(DMul(big, VNorm(d)), DMul(jn, DSqrt(DMul(2, Pt(p).c))))
  IN DLe(VNorm(res), DAdd(DMul(StepTol, size), DMul(big, Noise(p, e))))
\* where the system is well conditioned the solution itself can be compared
StepNear(p, e) ==
  LET D == Reg(p)
      want == MSolve(Pt(p).J, D, VScale(-1, Pt(p).g), N)
  IN DLe(Lit("1e-2"), Rcond(Pt(p).J, D, N)) =>
     DLe(VNorm(VSub(Step(p, e), want)),
         DAdd(DMul(IF c.iterative \/ c.mixed THEN Lit("1e-5") ELSE Lit("1e-8"), VNorm(want)), DMul(DInt(100), Noise(p, e))))
\* a step can be computed unless the problem is close to singular or solved
Possible(p) ==
  LET D == Reg(p)
      jn == FNorm(Pt(p).J, N)
      gn == VNorm(Pt(p).g)
      big == DAdd(DMul(jn, jn), DMul(VMaxAbs(D), VMaxAbs(D)))
  IN /\ \A i \in 1..N : ~DLt(DMul(D[i], D[i]), DMul(Lit("1e-11"), big))
     /\ ~c.mixed /\ ~c.iterative
     /\ DLt(DMul(Lit("1e-7"), Pt(p).c), DDiv(DMul(gn, gn), big))

\* ------------------------------------------------------------------ preparation
AllRes == [i \in 1..Len(H.res) |-> Range(H.res[i])]
Blocks == 1..H.nb
Act == Range(H.active)
Gone == Blocks \ Act
Red == Reduced(AllRes, Gone)
Conf == [type |-> c.type, pre |-> c.pre, dynamic |-> c.dynamic, given |-> c.given,
         groups |-> [i \in 1..Len(c.groups) |-> [id |-> c.groups[i].id, b |-> Range(c.groups[i].b)]]]
Expect == Verdict(Conf, Red, Act, Gone)
Sizes(gs) == [i \in 1..Len(gs) |-> Cardinality(gs[i].b)]
UsedOk(u) ==
  IF Chooses(Conf, Gone)
  THEN LET n == Cardinality(Act) IN
       \E S \in FirstChoices(Conf, Red, Act, Gone) :
          u = (IF Cardinality(S) = n THEN <<n>> ELSE <<Cardinality(S), n - Cardinality(S)>>)
  ELSE u = (IF c.given THEN Sizes(Without(Conf.groups, Gone)) ELSE <<Cardinality(Act)>>)

EvConfig ==
  /\ Ev.ev = "config" /\ s.at = "idle" /\ Eat
  /\ c' = Ev
  /\ s' = [at |-> "begin"]
\* fixed residual blocks are evaluated once, before anything is prepared
EvFixed == Ev.ev = "P" /\ s.at = "begin" /\ ~Ev.j /\ Ev.n /\ Ev.p = 1 /\ Eat /\ s' = [at |-> "fixed"] /\ UNCHANGED c
EvFirst ==
  /\ Ev.ev = "P" /\ s.at \in {"begin", "fixed"} /\ Ev.j /\ Ev.n /\ Ev.p = 1 /\ Eat
  /\ Act # {} /\ Expect = "ok"
  /\ s' = [at |-> "report", x |-> 1, cand |-> 0, radius |-> c.radius, scale |-> ScaleAt(1), fin |-> FALSE]
  /\ UNCHANGED c
EvTry ==
  /\ Ev.ev = "P" /\ s.at = "iterate" /\ ~Ev.j /\ Ev.n /\ Eat
  /\ Held(s.x, Ev.p)
  /\ Pt(s.x).ok => StepOk(s.x, Ev.p) /\ StepNear(s.x, Ev.p)
  /\ s' = [s EXCEPT !.at = "tried", !.cand = Ev.p]
  /\ UNCHANGED c
EvMove ==
  /\ Ev.ev = "P" /\ s.at = "tried" /\ Ev.j /\ ~Ev.n /\ Ev.p = s.cand /\ Eat
  /\ s' = [s EXCEPT !.at = "moved", !.x = s.cand]
  /\ UNCHANGED c
EvReport ==
  /\ Ev.ev = "I" /\ Eat
  /\ IF Ev.i = 0 THEN s.at = "report"
     ELSE IF Ev.ok THEN s.at = "moved"
     ELSE IF Ev.valid THEN s.at = "tried"
     ELSE s.at = "iterate" /\ ~Possible(s.x)
  /\ s' = [s EXCEPT !.at = "iterate", !.radius = Ev.r]
  /\ UNCHANGED c
Prepared ==
  /\ Ev.gtype = c.type /\ Ev.gpre = c.pre
  /\ Ev.type = TypeUsed(Conf, Gone)
  /\ Ev.pre = PreUsed(Conf, Gone)
  /\ Ev.threads = c.threads
  /\ Ev.given = (IF c.given THEN Sizes(Conf.groups) ELSE <<>>)
  /\ UsedOk(Ev.used)
EvEnd ==
  /\ Ev.ev = "end" /\ Eat
  /\ ~Ev.died
  /\ IF Act = {} THEN s.at \in {"begin", "fixed"} /\ Ev.end = "CONVERGENCE" /\ Ev.x = 1
     ELSE IF Expect # "ok" THEN s.at \in {"begin", "fixed"} /\ Ev.end = "FAILURE" /\ Ev.msg # "" /\ Ev.x = 1
     ELSE /\ s.at \in {"iterate", "tried", "moved", "report"}
          /\ Ev.end \in {"CONVERGENCE", "NO_CONVERGENCE"}
          /\ Held(1, Ev.x)
          /\ Prepared
  /\ s' = Idle
  /\ UNCHANGED c

Done == l > Len(Traces[t].ev) /\ s.at = "idle" /\ UNCHANGED vars
Next == IF l > Len(Traces[t].ev) THEN Done
        ELSE EvSolver \/ EvSolve \/ EvConfig \/ EvFixed \/ EvFirst \/ EvTry \/ EvMove \/ EvReport \/ EvEnd
Spec == Init /\ [][Next]_vars
============================================================================
