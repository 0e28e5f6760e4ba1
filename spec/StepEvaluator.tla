---------------------------- MODULE StepEvaluator ----------------------------
(* Step quality and reference cost of the (non-monotonic) trust region        *)
(* method: algorithm 10.1.2 of Conn, Gould and Toint.  Costs and model cost   *)
(* changes are doubles (Dbl.tla).                                             *)
EXTENDS Integers, Sequences, Dbl
DMaxValue == "7fefffffffffffff"
DLowest == "ffefffffffffffff"

SEInit(c) == [min |-> c, cur |-> c, ref |-> c, can |-> c,
              accr |-> DInt(0), acca |-> DInt(0), n |-> 0]
\* relative decrease against the current cost and against the reference
Quality(s, c, m) ==
  IF DLe(DMaxValue, c) THEN DLowest
  ELSE DMax(DDiv(DSub(s.cur, c), m), DDiv(DSub(s.ref, c), DAdd(s.accr, m)))
\* an accepted step to cost c with model cost change m; win: how many
\* consecutive iterations may pass without a new minimum
StepTaken(s, c, m, win) ==
  LET acca1 == DAdd(s.acca, m)
      accr1 == DAdd(s.accr, m)
      newmin == DLt(c, s.min)
      s1 == IF newmin
            THEN [s EXCEPT !.cur = c, !.min = c, !.n = 0, !.can = c, !.acca = DInt(0), !.accr = accr1]
            ELSE IF DLt(s.can, c)
            THEN [s EXCEPT !.cur = c, !.n = @ + 1, !.can = c, !.acca = DInt(0), !.accr = accr1]
            ELSE [s EXCEPT !.cur = c, !.n = @ + 1, !.acca = acca1, !.accr = accr1]
  IN IF s1.n = win THEN [s1 EXCEPT !.ref = s1.can, !.accr = s1.acca] ELSE s1
=============================================================================
