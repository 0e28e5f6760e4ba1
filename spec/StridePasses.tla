----------------------------- MODULE StridePasses -----------------------------
(* DynamicAutoDiffCostFunction computes a Jacobian in passes of Stride        *)
(* derivatives, walking the sections of consecutive blocks whose Jacobian was *)
(* asked for.  One state per pass: what the pass seeds and where it copies    *)
(* to.  In the end every column that was asked for has been written once,     *)
(* from the derivative by that very parameter, and nothing else.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxBlocks, MaxSize, MaxStride
VARIABLES size, want, stride, sec, cur, pass, written
vars == <<size, want, stride, sec, cur, pass, written>>
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
NB == Len(size)
Total == Sum(size)
Start(b) == Sum([i \in 1..(b - 1) |-> size[i]])
Owner(p) == CHOOSE b \in 1..NB : Start(b) <= p /\ p < Start(b) + size[b]
ActiveCount == Sum([b \in 1..NB |-> IF want[b] THEN size[b] ELSE 0])
Sections == SelectSeq([b \in 1..NB |-> b], LAMBDA b : want[b] /\ (b = 1 \/ ~want[b - 1]))
Begin == [k \in 1..Len(Sections) |-> Start(Sections[k])] \o <<Total>>
Passes == (ActiveCount + stride - 1) \div stride
\* walk all parameters: acc = <<section, cursor, taken, seeds>>
Walk(s, c) ==
  FoldLeft(LAMBDA acc, p :
             IF acc[3] < stride /\ p >= Begin[acc[1]] + acc[2]
             THEN IF want[Owner(p)] THEN <<acc[1], acc[2] + 1, acc[3] + 1, Append(acc[4], p)>>
                                    ELSE <<acc[1] + 1, 0, acc[3], acc[4]>>
             ELSE acc,
           <<s, c, 0, <<>>>>, [k \in 1..Total |-> k - 1])
Init == /\ \E n \in 1..MaxBlocks : size \in [1..n -> 1..MaxSize] /\ want \in [1..n -> BOOLEAN]
        /\ stride \in 1..MaxStride /\ sec = 1 /\ cur = 0 /\ pass = 0 /\ written = <<>>
Next == /\ ActiveCount > 0 /\ pass < Passes
        /\ LET w == Walk(sec, cur) IN
           /\ sec' = w[1] /\ cur' = w[2] /\ pass' = pass + 1
           /\ written' = written \o w[4]
        /\ UNCHANGED <<size, want, stride>>
Spec == Init /\ [][Next]_vars
InRange == sec <= Len(Begin)
Wanted == {p \in 0..(Total - 1) : want[Owner(p)]}
Complete == (ActiveCount > 0 /\ pass = Passes) =>
  /\ Len(written) = Cardinality(Wanted)
  /\ {written[k] : k \in 1..Len(written)} = Wanted
=============================================================================
