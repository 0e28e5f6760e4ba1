------------------------------ MODULE ProblemGen ------------------------------
(* Random walks over Problem.tla (tlc -simulate), printed as scripts for the  *)
(* driver.  A walk carries the specification state, so it knows which calls   *)
(* are legal; now and then it makes an illegal one, which ends the script.    *)
EXTENDS Problem, Json

CONSTANTS MaxLen, EvalPct, MisusePct, SolvePct, FailPct, NSlotsUsed, MaxBlocks

VARIABLES script, phase, own, usedC, usedL
gvars == <<pvars, script, phase, own, usedC, usedL>>

R(S) == RandomElement(S)
GInit == Init /\ script = <<>> /\ phase = "setup" /\ own = <<>> /\ usedC = {} /\ usedL = {}
Setup == /\ phase = "setup"
         /\ \E f \in {R(0..1)}, c \in {R(0..1)}, ls \in {R(0..1)}, m \in {R(0..1)}, cb \in {R(0..1)} :
              own' = <<f, c, ls, m, cb>>
         /\ phase' = "run" /\ UNCHANGED <<pvars, script, usedC, usedL>>

Add(op, a) == script' = Append(script, <<op, a>>) /\ UNCHANGED <<phase, own>>
KeepUsed == UNCHANGED <<usedC, usedL>>
Skip == UNCHANGED gvars
\* an illegal call: recorded, then the script ends
Misuse(op, a) == /\ script' = Append(script, <<op, a>>) /\ phase' = "end"
                 /\ UNCHANGED <<pvars, own, usedC, usedL>>
Do(op, a, legal, act, bad) == IF legal THEN act /\ Add(op, a)
                              ELSE IF bad THEN Misuse(op, a) ELSE Skip
\* a slot: mostly a present one
Slot(pres) == IF pres /\ Present # {} THEN R(Present) ELSE R(1..NSlotsUsed)
Chance(n) == R(1..100) <= n

\* objects that may be handed over (again): an owned object must not be reused
\* after the problem has let go of it
CostsOk == {c \in Costs : own[2] = 0 \/ c \notin usedC \/ CostInUse(c)}
LossesOk == {c \in Losses : own[3] = 0 \/ c \notin usedL \/ LossInUse(c)} \cup {0}

Sized(s) == {p \in 1..NSlotsUsed : IF p \in Present THEN blk[p].sz = s ELSE SlotSize(p) = s}
RECURSIVE PickBlocks(_, _)
PickBlocks(sig, done) ==
  IF sig = <<>> THEN done
  ELSE LET S == Sized(Head(sig)) \ Range(done) IN
       IF S = {} THEN <<>> ELSE
       LET P == S \cap Present IN
       PickBlocks(Tail(sig), Append(done, IF P # {} /\ R(1..100) <= 70 THEN R(P) ELSE R(S)))

\* (they mention a variable, or TLC would evaluate them once and for all)
Bound == R({x \in -3..3 : Len(script) >= 0})
Threads == R({x \in 1..4 : Len(script) >= 0})
RECURSIVE RandSeq(_, _)
RandSeq(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o RandSeq(S \ {x}, n - 1)
EvalScript(bad) ==
  LET ids == IF Chance(50) THEN <<>> ELSE RandSeq(ResIds, R(1..4))
      ps == IF Chance(50) /\ (~removed \/ Cardinality(Present) <= 4) THEN <<>>
            ELSE RandSeq(Present, R(1..5))
      al == R(0..1) th == Threads mk == R(1..15)
      ps2 == IF bad THEN Append(ps, R((1..12) \ Present)) ELSE ps
  IN <<al, th, mk, Len(ids)>> \o ids \o <<Len(ps2)>> \o ps2

Mutate(k, bad) ==
  CASE k <= 14 -> \E p \in {Slot(bad)} : \E s \in {IF bad THEN R(1..3) ELSE SlotSize(p)} :
                    Do("addp", <<p, s>>, OkAddP(p, s), AddParameterBlock(p, s) /\ KeepUsed, bad)
    [] k <= 22 -> \E p \in {Slot(FALSE)} : \E s \in {SlotSize(p)} :
                  \E m \in {IF bad THEN R(Mans) ELSE R({x \in Mans : ManAmb(x) = s} \cup {0})} :
                    Do("addpm", <<p, s, m>>, OkAddP(p, s) /\ OkMan(m, s),
                       AddParameterBlockM(p, s, m) /\ KeepUsed, bad)
    [] k <= 46 -> \E c \in {R(CostsOk \cup {0})} : IF c = 0 THEN Skip ELSE
                  \E ls \in {IF Chance(40) THEN 0 ELSE R(LossesOk)} :
                  \E b \in {IF bad THEN [i \in 1..R(1..3) |-> R(1..NSlotsUsed)]
                            ELSE PickBlocks(CostSig(c), <<>>)} :
                    IF b = <<>> \/ Len(res) >= MaxRes THEN Skip ELSE
                    IF OkAddR(c, b)
                    THEN /\ AddResidualBlock(c, ls, b) /\ Add("addr", <<c, ls>> \o b)
                         /\ usedC' = usedC \cup {c} /\ usedL' = usedL \cup ({ls} \ {0})
                    ELSE IF bad THEN Misuse("addr", <<c, ls>> \o b) ELSE Skip
    [] k <= 51 -> \E p \in {Slot(~bad)} : Do("remp", <<p>>, p \in Present, RemoveParameterBlock(p) /\ KeepUsed, bad)
    [] k <= 57 -> \E id \in {IF ~bad /\ res # <<>> THEN R(ResIds) ELSE R(1..nextId)} :
                    Do("remr", <<id>>, id \in ResIds, RemoveResidualBlock(id) /\ KeepUsed, bad)
    [] k <= 63 -> \E p \in {Slot(~bad)} : Do("con", <<p>>, p \in Present, SetConstant(p) /\ KeepUsed, bad)
    [] k <= 69 -> \E p \in {Slot(~bad)} : Do("var", <<p>>, p \in Present, SetVariable(p) /\ KeepUsed, bad)
    [] k <= 76 -> \E p \in {Slot(~bad)} :
                  \E m \in {IF bad \/ p \notin Present THEN R(Mans)
                            ELSE R({x \in Mans : ManAmb(x) = blk[p].sz} \cup {0})} :
                    Do("man", <<p, m>>, p \in Present /\ OkMan(m, blk[p].sz), SetManifold(p, m) /\ KeepUsed, bad)
    [] k <= 81 -> \E p \in {Slot(~bad)} : \E i \in {IF bad THEN R(0..3) ELSE R(0..SlotSize(p) - 1)} :
                  \E v \in {IF Chance(25) THEN NoLo ELSE Bound} :
                    Do("lo", <<p, i, v>>, p \in Present /\ i < blk[p].sz, SetLower(p, i, v) /\ KeepUsed, bad)
    [] k <= 86 -> \E p \in {Slot(~bad)} : \E i \in {IF bad THEN R(0..3) ELSE R(0..SlotSize(p) - 1)} :
                  \E v \in {IF Chance(25) THEN NoHi ELSE Bound} :
                    Do("hi", <<p, i, v>>, p \in Present /\ i < blk[p].sz, SetUpper(p, i, v) /\ KeepUsed, bad)
    [] k <= 90 -> \E p \in {Slot(~bad)}, q \in {R({"qcon", "qsz", "qtan", "qman", "qres"})} :
                    Do(q, <<p>>, p \in Present, UNCHANGED pvars /\ KeepUsed, bad)
    [] k <= 92 -> \E p \in {Slot(~bad)}, q \in {R({"qlo", "qhi"})} :
                    Do(q, <<p, 0>>, p \in Present, UNCHANGED pvars /\ KeepUsed, bad)
    [] k <= 94 /\ ~bad -> \E q \in {R({"move", "massign"})} : Do(q, <<>>, TRUE, UNCHANGED pvars /\ KeepUsed, FALSE)
    [] k <= 98 /\ ~bad -> \E p \in {R(1..NSlotsUsed)}, x \in {R(-3..3)}, y \in {R(-3..3)}, z \in {R(-3..3)} :
                    Do("val", <<p, x, y, z>>, TRUE, UNCHANGED pvars /\ KeepUsed, FALSE)
    [] OTHER   -> IF bad /\ \E p \in Present : blk[p].sz >= 2
                  THEN \* a location that overlaps the block at p from within or from before
                       \E p \in {R({q \in Present : blk[q].sz >= 2})} : \E d \in {R({-2, -1, 1})} :
                         Misuse("alias", <<p, d, R(IF d = 1 THEN 1..2 ELSE (1 - d)..3)>>)
                  ELSE Skip

Measure(k, bad) ==
  IF k <= FailPct THEN \E c \in {R(Costs)} : \E m \in {IF Chance(50) THEN 0 ELSE R(0..5)} :
        Do("fail", <<c, m>>, TRUE, UNCHANGED pvars /\ KeepUsed, FALSE)
  ELSE IF k <= 65 THEN \E a \in {EvalScript(bad)} :
        (IF bad THEN Misuse("eval", a) ELSE Do("eval", a, TRUE, UNCHANGED pvars /\ KeepUsed, FALSE))
  ELSE IF res = <<>> THEN Skip
  ELSE \E id \in {R(ResIds)}, al \in {R(0..1)}, mk \in {R({1, 2, 3, 8, 9, 10, 11})}, jm \in {R(0..7)}, un \in {R(0..1)} :
        Do("evalr", <<id, al, mk, jm, un>>, TRUE, UNCHANGED pvars /\ KeepUsed, FALSE)

Run == /\ phase = "run" /\ Len(script) < MaxLen
       /\ \E bad \in {Chance(MisusePct) /\ Len(script) > 6} : \E k \in {R(1..100)}, j \in {R(1..100)} :
            IF j <= EvalPct THEN Measure(k, bad)
            ELSE IF j <= EvalPct + SolvePct
            THEN Do("solve", <<R(0..3), R(1..3)>>, TRUE, UNCHANGED pvars /\ KeepUsed, FALSE)
            ELSE IF Cardinality(Present) > MaxBlocks /\ k <= 46 THEN Skip
            ELSE Mutate(k, bad)
Stop == /\ phase = "run" /\ Len(script) >= MaxLen
        /\ phase' = "end" /\ script' = Append(script, <<"destroy", <<>>>>)
        /\ UNCHANGED <<pvars, own, usedC, usedL>>
Emit == /\ phase = "end" /\ PrintT("SCRIPT " \o ToJson([own |-> own, ops |-> script]))
         /\ phase' = "done" /\ UNCHANGED <<pvars, script, own, usedC, usedL>>
GNext == Setup \/ Run \/ Stop \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
