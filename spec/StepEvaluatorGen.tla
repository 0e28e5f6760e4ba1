--------------------------- MODULE StepEvaluatorGen --------------------------
(* Random histories of StepEvaluator.tla, as scripts for the real class.      *)
EXTENDS StepEvaluator, TLC, Json
CONSTANTS MaxLen
VARIABLES s, win, script, phase
vars == <<s, win, script, phase>>
R(x) == RandomElement(x)
\* quarters, on a scale that changes from run to run
Num(a, b) == DDiv(R(a..b), 4)
Cost(x) == LET k == R(1..100) IN
           IF k <= 3 THEN DMaxValue
           ELSE IF k <= 5 THEN DDiv(1, 0)
           ELSE IF k <= 12 THEN s.min ELSE IF k <= 18 THEN s.can ELSE IF k <= 22 THEN s.ref
           ELSE IF k <= 60 THEN DSub(s.cur, Num(0, 8))
           ELSE DAdd(s.cur, Num(0, x))
Init == s = SEInit(DInt(0)) /\ win = 0 /\ script = <<>> /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "run"
         /\ \E c \in {Num(0, 400)}, w \in {R(0..6)} :
              s' = SEInit(c) /\ win' = w /\ script' = <<c>>
Step == /\ phase = "run" /\ Len(script) < MaxLen
        /\ \E c \in {Cost(R({4, 12, 40}))}, m \in {Num(1, 16)}, acc \in {R(0..9)} :
             \* now and then a step of low quality is accepted all the same
             LET take == DLt(c, DMaxValue) /\ (DLt(0, Quality(s, c, m)) \/ acc = 0) /\ acc < 9 IN
             /\ script' = Append(script, <<c, m, IF take THEN 1 ELSE 0>>)
             /\ s' = IF take THEN StepTaken(s, c, m, win) ELSE s
        /\ UNCHANGED <<win, phase>>
Emit == /\ phase = "run" /\ Len(script) >= MaxLen
        /\ PrintT("SCRIPT " \o ToJson([win |-> win, steps |-> script]))
        /\ phase' = "done" /\ UNCHANGED <<s, win, script>>
Spec == Init /\ [][Start \/ Step \/ Emit]_vars
=============================================================================
