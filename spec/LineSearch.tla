------------------------------ MODULE LineSearch ------------------------------
(* One line search, as a machine fed with the samples of the function along the *)
(* direction.  Used with exact integers (MC_LineSearch) and, by the trace       *)
(* specifications, with measured doubles; there a comparison may be undecided,  *)
(* so the tests on the numbers are sets of truth values and the machine maps    *)
(* a configuration to the set of configurations it may be in next.              *)
EXTENDS Integers, Sequences
CONSTANTS
  Le(_, _), Minus(_, _), Times(_, _), Half(_), Zero,
  Armijo(_, _),   \* sample satisfies sufficient decrease
  Curv(_, _),     \* and the curvature condition
  Small(_, _)     \* this step or width is below the minimum
(* p: search parameters [kind, interp, maxit, maxc, minc, expand, ...]          *)
(* s: sample [x, ok, c, g] (ok: value, and gradient if asked for, are finite)   *)
(* configuration: k = "want" (next trial step in [lo, hi]), "ok", "fail"        *)
Abs(x) == IF Le(Zero, x) THEN x ELSE Minus(Zero, x)
Lt(x, y) == ~Le(y, x)
MinOf(x, y) == IF Le(x, y) THEN x ELSE y
MaxOf(x, y) == IF Le(x, y) THEN y ELSE x
Fail(n) == {[k |-> "fail", n |-> n]}
Good(pt, n, full) == {[k |-> "ok", pt |-> pt, n |-> n, full |-> full]}
Clamp(x, lo, hi) == MinOf(MaxOf(x, lo), hi)
\* the next step: anything inside for interpolation, halving for bisection and
\* after a failed evaluation, the far end when bisection has to expand
Range(p, lo, hi, low, prev, cur) ==
  IF ~cur.ok \/ (p.interp = "BISECTION" /\ Le(hi, cur.x))
  THEN [lo |-> Clamp(Half(cur.x), lo, hi), hi |-> Clamp(Half(cur.x), lo, hi), fit |-> <<>>]
  ELSE IF p.interp = "BISECTION" THEN [lo |-> hi, hi |-> hi, fit |-> <<>>]
  ELSE [lo |-> lo, hi |-> hi, fit |-> <<low, cur>> \o prev]
Want(ph, r, prev, low, high, n) ==
  {[k |-> "want", ph |-> ph, lo |-> r.lo, hi |-> r.hi, fit |-> r.fit,
    prev |-> prev, low |-> low, high |-> high, n |-> n]}
Start(p, zero, step) ==
  Want(IF p.kind = "ARMIJO" THEN "A" ELSE "B", [lo |-> step, hi |-> step, fit |-> <<>>],
       IF p.kind = "ARMIJO" THEN [zero EXCEPT !.ok = FALSE] ELSE zero, zero, zero, 0)
\* the search gives up if the step it would take is too small (not in a zoom)
GivesUp(p, c) == IF c.k # "want" \/ c.ph = "Z" \/ c.n = 0 THEN {} ELSE Small(p, c.lo)

AfterA(p, c, s) ==
  UNION {IF b THEN Good(s, c.n, TRUE)
         ELSE IF c.n + 1 >= p.maxit THEN Fail(c.n + 1)
         ELSE Want("A", Range(p, Times(p.maxc, s.x), Times(p.minc, s.x), c.low,
                              IF c.prev.ok THEN <<c.prev>> ELSE <<>>, s), s, c.low, c.low, c.n + 1)
         : b \in IF s.ok THEN Armijo(p, s) ELSE {FALSE}}

ZoomLoop(p, low, high, n) ==
  IF n >= p.maxit THEN Good(low, n, FALSE)
  ELSE UNION {IF b THEN Good(low, n, FALSE)
              ELSE LET a == IF Lt(low.x, high.x) THEN low ELSE high
                       z == IF Lt(low.x, high.x) THEN high ELSE low
                   IN Want("Z", Range(p, a.x, z.x, a, <<>>, z), low, low, high, n + 1)
              : b \in Small(p, Abs(Minus(high.x, low.x)))}
Zoom(p, low, high, n) ==
  UNION {IF b THEN Good(low, n, FALSE)
         ELSE IF Le(Zero, Times(low.g, Minus(high.x, low.x))) THEN Fail(n)
         ELSE ZoomLoop(p, low, high, n)
         : b \in Small(p, Abs(Minus(high.x, low.x)))}
AfterZ(p, c, s) ==
  IF ~s.ok THEN Fail(c.n)
  ELSE UNION {IF ~a \/ Le(c.low.c, s.c) THEN ZoomLoop(p, c.low, s, c.n)
              ELSE UNION {IF b THEN Good(s, c.n, TRUE)
                          ELSE ZoomLoop(p, s, IF Le(Zero, Times(s.g, Minus(c.high.x, c.low.x))) THEN c.low ELSE c.high, c.n)
                          : b \in Curv(p, s)}
              : a \in Armijo(p, s)}

\* bracketing: what is left to do with a sample that is no bracket and not final
Onwards(p, c, s, n) ==
  IF n >= p.maxit THEN Good(IF s.ok /\ Lt(s.c, c.prev.c) THEN s ELSE c.prev, n, FALSE)
  ELSE LET lo == IF s.ok THEN s.x ELSE c.prev.x
           hi == IF s.ok THEN Times(p.expand, s.x) ELSE s.x
       IN Want("B", Range(p, lo, hi, c.prev, <<>>, s), IF s.ok THEN s ELSE c.prev, c.low, c.low, n)
AfterB(p, c, s) ==
  LET n == c.n + 1 IN
  IF ~s.ok THEN Onwards(p, c, s, n)
  ELSE UNION {IF ~a \/ Lt(c.prev.c, s.c) THEN Zoom(p, c.prev, s, n)
              ELSE UNION {IF b THEN Good(s, n, TRUE)
                          ELSE IF Le(Zero, s.g) THEN Zoom(p, s, c.prev, n)
                          ELSE UNION {IF d THEN Good(s, n, FALSE) ELSE Onwards(p, c, s, n)
                                      : d \in Small(p, Abs(Minus(s.x, c.prev.x)))}
                          : b \in Curv(p, s)}
              : a \in Armijo(p, s)}
After(p, c, s) == CASE c.ph = "A" -> AfterA(p, c, s) [] c.ph = "B" -> AfterB(p, c, s) [] OTHER -> AfterZ(p, c, s)
===============================================================================
