--------------------------- MODULE DerivativeTrace ---------------------------
(* What the derivative wrappers returned, against the dual numbers of         *)
(* Derivative.tla in double arithmetic: bit for bit equality (as numbers) for *)
(* programs of ring operations on small integers, nearness for others.        *)
EXTENDS Integers, Sequences, SequencesExt, Dbl, Json, IOUtils, TLC
DL(n) == DInt(n)
D == INSTANCE Derivative WITH Add <- DAdd, Sub <- DSub, Mul <- DMul, Lit <- DL, Less <- DLt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, cur
vars == <<t, l, cur>>
Ev == Traces[t].ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ cur = <<>>

\* ---------------------------------------------------- elementary functions
One == DInt(1)
Two == DInt(2)
F(f, x) == DFun(f, x)
Sq(x) == DMul(x, x)
Inv(x) == DDiv(One, x)
Ln2 == F("log", Two)
\* derivative of f at x
Slope(f, x) ==
  CASE f = "abs" -> F("sign", x)
    [] f = "log" -> Inv(x)
    [] f = "log10" -> Inv(DMul(x, F("log", DInt(10))))
    [] f = "log1p" -> Inv(DAdd(One, x))
    [] f = "log2" -> Inv(DMul(x, Ln2))
    [] f = "exp" -> F("exp", x)
    [] f = "exp2" -> DMul(Ln2, F("exp2", x))
    [] f = "expm1" -> F("exp", x)
    [] f = "sqrt" -> DDiv(DLit("0.5"), F("sqrt", x))
    [] f = "cbrt" -> Inv(DMul(DInt(3), Sq(F("cbrt", x))))
    [] f = "sin" -> F("cos", x)
    [] f = "cos" -> DNeg(F("sin", x))
    [] f = "tan" -> DAdd(One, Sq(F("tan", x)))
    [] f = "asin" -> Inv(F("sqrt", DSub(One, Sq(x))))
    [] f = "acos" -> DNeg(Inv(F("sqrt", DSub(One, Sq(x)))))
    [] f = "atan" -> Inv(DAdd(One, Sq(x)))
    [] f = "sinh" -> F("cosh", x)
    [] f = "cosh" -> F("sinh", x)
    [] f = "tanh" -> DSub(One, Sq(F("tanh", x)))
    [] f \in {"floor", "ceil"} -> DInt(0)
    [] f = "norm" -> DMul(Two, x)
    [] f = "erf" -> DMul(DDiv(Two, F("sqrt", DLit("3.141592653589793"))), F("exp", DNeg(Sq(x))))
    [] f = "erfc" -> DNeg(DMul(DDiv(Two, F("sqrt", DLit("3.141592653589793"))), F("exp", DNeg(Sq(x)))))
Lin2(p, x, q, y) == VAdd(VScale(p, x), VScale(q, y))
JDiv(a, b) == <<DDiv(a[1], b[1]), VScale(Inv(b[1]), VSub(a[2], VScale(DDiv(a[1], b[1]), b[2])))>>
Other(i, r, n) ==
  LET a == r[i[2] + 1] b == r[i[3] + 1] c == r[i[4] + 1]
      k == D!Const(n, i[6])
      hyp(s) == F("sqrt", FoldLeft(LAMBDA u, w : DAdd(u, Sq(w[1])), DInt(0), s))
      power(x, y) ==       \* x^y, x > 0 or y a constant integer
        <<DPow(x[1], y[1]),
          IF D!Zeros(n) = y[2] THEN VScale(DMul(y[1], DPow(x[1], DSub(y[1], One))), x[2])
          ELSE Lin2(DMul(y[1], DPow(x[1], DSub(y[1], One))), x[2], DMul(DPow(x[1], y[1]), F("log", x[1])), y[2])>>
  IN CASE i[1] \in {"div", "idiv"} -> JDiv(a, b)
       [] i[1] = "divc" -> JDiv(a, k)
       [] i[1] = "cdiv" -> JDiv(k, a)
       [] i[1] = "atan2" -> LET q == DAdd(Sq(a[1]), Sq(b[1])) IN
                            <<DAtan2(a[1], b[1]), Lin2(DDiv(b[1], q), a[2], DNeg(DDiv(a[1], q)), b[2])>>
       [] i[1] = "hypot" -> LET h == hyp(<<a, b>>) IN <<h, Lin2(DDiv(a[1], h), a[2], DDiv(b[1], h), b[2])>>
       [] i[1] = "hypot3" -> LET h == hyp(<<a, b, c>>) IN
                             <<h, VAdd(Lin2(DDiv(a[1], h), a[2], DDiv(b[1], h), b[2]), VScale(DDiv(c[1], h), c[2]))>>
       [] i[1] = "fma" -> D!JAdd(D!JMul(a, b), c)
       [] i[1] = "fmax" -> IF DLt(a[1], b[1]) THEN b ELSE a
       [] i[1] = "fmin" -> IF DLt(b[1], a[1]) THEN b ELSE a
       [] i[1] = "fdim" -> IF DLt(b[1], a[1]) THEN D!JSub(a, b) ELSE D!Const(n, DInt(0))
       [] i[1] = "copysign" -> LET s == DMul(F("sign", a[1]), F("sign", b[1])) IN
                               <<DMul(F("abs", a[1]), F("sign", b[1])), VScale(s, a[2])>>
       [] i[1] = "pow" -> power(a, b)
       [] i[1] = "powc" -> power(a, k)
       [] i[1] = "cpow" -> power(k, a)
       [] OTHER -> <<F(i[1], a[1]), VScale(Slope(i[1], a[1]), a[2])>>

\* -------------------------------------------------------------- evaluation
Regs(p, x) == D!Registers(p.ins, x, Other)
Fails(p, r) == IF p.guard < 0 THEN FALSE ELSE DLt(p.limit, r[p.guard + 1][1])
Outs(p, r) == [k \in 1..Len(p.out) |-> r[p.out[k] + 1]]
Same(exact, got, want) ==
  IF exact THEN VEq(got, want)
  ELSE IF Len(got) # Len(want) THEN FALSE
  ELSE \A k \in 1..Len(want) :
         IF ~DFin(want[k]) THEN TRUE
         ELSE IF DLt(DLit("1e5"), DAbs(want[k])) THEN TRUE
         ELSE DNear(got[k], want[k], DLit("1e-7"), DLit("1e-7"))
\* rows of the Jacobian by block b of sizes n
Part(J, n, b) ==
  LET at == FoldLeft(LAMBDA u, v : u + v, 0, SubSeq(n, 1, b - 1))
  IN FlattenSeq([k \in 1..Len(J) |-> SubSeq(J[k][2], at + 1, at + n[b])])
Shows(e, exact, J) ==
  /\ Same(exact, e.r, [k \in 1..Len(J) |-> J[k][1]])
  /\ \A b \in 1..Len(e.n) : e.mask[b] = 1 => Same(exact, e.j[b], Part(J, e.n, b))
Conditioned(c, j) ==     \* c(j) for a conditioner given as a list of at most one program
  IF c = <<>> THEN j
  ELSE LET r == Regs(c[1], <<j[1]>>)
           y == Outs(c[1], r)[1]
       IN <<y[1], VScale(y[2][1], j[2])>>
CondFails(c, j) == IF c = <<>> THEN FALSE ELSE Fails(c[1], Regs(c[1], <<j[1]>>))
Eval(e) ==
  /\ e.g
  /\ IF cur.kind = "fun"
     THEN LET r == Regs(cur.p, e.x) IN
          IF Fails(cur.p, r) THEN ~e.ok ELSE e.ok /\ Shows(e, cur.p.exact, Outs(cur.p, r))
     ELSE IF cur.kind = "cond"
     THEN LET r == Regs(cur.p, e.x)
              j == Outs(cur.p, r)
          IN IF Fails(cur.p, r) THEN ~e.ok
             ELSE IF \E k \in 1..Len(j) : CondFails(cur.c[k], j[k]) THEN ~e.ok
             ELSE e.ok /\ Shows(e, TRUE, [k \in 1..Len(j) |-> Conditioned(cur.c[k], j[k])])
     ELSE LET d == VSub(e.x, cur.b) IN
          e.ok /\ Shows(e, TRUE, [k \in 1..Len(cur.a) |-> <<VDot(cur.a[k], d), cur.a[k]>>])
\* an automatically differentiated manifold
Columns(J, from, n) == FlattenSeq([k \in 1..Len(J) |-> SubSeq(J[k][2], from + 1, from + n)])
Mop(e) ==
  LET zero == [k \in 1..cur.t |-> DInt(0)]
      at == CASE e.what = 0 -> e.x \o e.d
              [] e.what = 1 -> e.x \o e.y
              [] e.what = 2 -> e.x \o zero
              [] OTHER -> e.x \o e.x
      p == IF e.what \in {0, 2} THEN cur.plus ELSE cur.minus
      \* Plus(x, d) with d behind x, Minus(y, x) is called with (x, what follows it)
      r == Regs(p, at)
      J == Outs(p, r)
  IN /\ e.g
     /\ IF Fails(p, r) THEN ~e.ok
        ELSE /\ e.ok
             /\ CASE e.what \in {0, 1} -> VEq(e.r, [k \in 1..Len(J) |-> J[k][1]])
                  [] e.what = 2 -> VEq(e.r, Columns(J, cur.a, cur.t))
                  [] OTHER -> VEq(e.r, Columns(J, 0, cur.a))
\* corners of functions of jets, as documented in jet.h
Whole(x) == DEq(x, F("floor", x))
Zero == DInt(0)
NoNumbers(v) == \A k \in 1..Len(v) : ~DFin(v[k])
Near(x, y) == DNear(x, y, DLit("1e-12"), DLit("1e-12"))
VNear2(v, w) == \A k \in 1..Len(w) : Near(v[k], w[k])
IsPow(f, g, y) ==
  IF DEq(f[1], Zero)
  THEN IF DLt(One, g[1]) THEN DEq(y[1], Zero) /\ VEq(y[2], D!Zeros(3))
       ELSE IF DEq(g[1], One) THEN DEq(y[1], Zero) /\ VEq(y[2], f[2])
       ELSE /\ IF DLt(Zero, g[1]) THEN DEq(y[1], Zero) ELSE IF DEq(g[1], Zero) THEN DEq(y[1], One) ELSE ~DFin(y[1])
            /\ NoNumbers(y[2])
  ELSE IF DLt(f[1], Zero)
  THEN IF Whole(g[1])
       THEN /\ Near(y[1], DPow(f[1], g[1]))
            /\ \A k \in 1..3 : IF DEq(g[2][k], Zero) THEN Near(y[2][k], DMul(DMul(g[1], DPow(f[1], DSub(g[1], One))), f[2][k]))
                               ELSE ~DFin(y[2][k])
       ELSE ~DFin(y[1]) /\ NoNumbers(y[2])
  ELSE /\ Near(y[1], DPow(f[1], g[1]))
       /\ VNear2(y[2], Lin2(DMul(g[1], DPow(f[1], DSub(g[1], One))), f[2], DMul(DPow(f[1], g[1]), F("log", f[1])), g[2]))
IsPowC(f, c, y) ==      \* a constant exponent
  IF DEq(f[1], Zero) THEN IF DLe(One, c) THEN IsPow(f, <<c, D!Zeros(3)>>, y) ELSE TRUE
  ELSE IF DLt(f[1], Zero) THEN IF Whole(c) THEN IsPow(f, <<c, D!Zeros(3)>>, y) ELSE ~DFin(y[1])
  ELSE IsPow(f, <<c, D!Zeros(3)>>, y)
IsCPow(c, g, y) ==      \* a constant base
  IF DEq(c, Zero) THEN IF DLt(Zero, g[1]) THEN DEq(y[1], Zero) /\ VEq(y[2], D!Zeros(3)) ELSE TRUE
  ELSE IF DLt(c, Zero) THEN IF Whole(g[1]) THEN /\ Near(y[1], DPow(c, g[1]))
                                                /\ \A k \in 1..3 : IF DEq(g[2][k], Zero) THEN DEq(y[2][k], Zero) ELSE ~DFin(y[2][k])
                            ELSE ~DFin(y[1])
  ELSE IsPow(<<c, D!Zeros(3)>>, g, y)
JEq(x, y) == (IF DNaN(y[1]) THEN DNaN(x[1]) ELSE DEq(x[1], y[1])) /\ VEq(x[2], y[2])
Middle(f, g) == <<DMul(DAdd(f[1], g[1]), DLit("0.5")), VScale(DLit("0.5"), VAdd(f[2], g[2]))>>
Pick(f, g, first, y) ==  \* fmax, fmin: `first' says that f wins
  IF DNaN(f[1]) /\ DNaN(g[1]) THEN DNaN(y[1])
  ELSE IF DNaN(f[1]) THEN JEq(y, g)
  ELSE IF DNaN(g[1]) THEN JEq(y, f)
  ELSE IF DEq(f[1], g[1]) THEN JEq(y, Middle(f, g))
  ELSE JEq(y, IF first THEN f ELSE g)
Bit(b) == IF b THEN 1 ELSE 0
Class(f, g) ==
  LET x == f[1] y == g[1] u == DNaN(x) \/ DNaN(y) IN
  <<Bit(DNaN(x)), Bit(~DNaN(x) /\ ~DFin(x)), Bit(DFin(x)),
    Bit(DLt(x, y)), Bit(DLt(y, x)), Bit(DLe(x, y)), Bit(DLe(y, x)), Bit(DLt(x, y) \/ DLt(y, x)), Bit(u),
    Bit(DLt(x, y)), Bit(DLe(x, y)), Bit(DLt(y, x)), Bit(DLe(y, x)), Bit(DEq(x, y)), Bit(~DEq(x, y))>>
Corner(e) ==
  CASE e.name = "pow" -> IsPow(e.f, e.g, e.y)
    [] e.name = "powc" -> IsPowC(e.f, e.g[1], e.y)
    [] e.name = "cpow" -> IsCPow(e.f[1], e.g, e.y)
    [] e.name = "fmax" -> Pick(e.f, e.g, DLt(e.g[1], e.f[1]), e.y)
    [] e.name = "fmin" -> Pick(e.f, e.g, DLt(e.f[1], e.g[1]), e.y)
    [] e.name = "fdim" -> IF DNaN(e.f[1]) \/ DNaN(e.g[1]) THEN DNaN(e.y[1])
                          ELSE IF DLt(e.g[1], e.f[1]) THEN JEq(e.y, D!JSub(e.f, e.g))
                          ELSE JEq(e.y, D!Const(3, Zero))
    [] e.name = "class" -> e.c = Class(e.f, e.g)
Event(e) ==
  CASE e.ev = "corner" -> Corner(e) /\ UNCHANGED cur
    [] e.ev = "fun" -> cur' = [kind |-> "fun", p |-> e.p]
    [] e.ev = "cond" -> cur' = [kind |-> "cond", p |-> e.p, c |-> e.c]
    [] e.ev = "prior" -> cur' = [kind |-> "prior", a |-> e.a, b |-> e.b]
    [] e.ev = "manifold" -> cur' = [kind |-> "manifold", plus |-> e.plus, minus |-> e.minus, a |-> e.a, t |-> e.t]
    [] e.ev = "eval" -> Eval(e) /\ UNCHANGED cur
    [] e.ev = "mop" -> Mop(e) /\ UNCHANGED cur
Step == l <= Len(Traces[t].ev) /\ Event(Ev) /\ l' = l + 1 /\ UNCHANGED t
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
