---------------------------- MODULE MC_Derivative ----------------------------
(* The dual numbers of Derivative.tla against polynomials: a program is built *)
(* instruction by instruction; next to each register the polynomial it stands *)
(* for is kept (coefficients of x^i y^j), and the dual number must be its     *)
(* value and formal derivatives at the point.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS Depth, Degree
Points == {0 - 1, 0, 2}
IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
ILit(a) == a
ILess(a, b) == a < b
D == INSTANCE Derivative WITH Add <- IAdd, Sub <- ISub, Mul <- IMul, Lit <- ILit, Less <- ILess
VARIABLES x, regs, poly, last
vars == <<x, regs, poly, last>>
Mono == (0..Degree) \X (0..Degree)
PX == [m \in Mono |-> IF m = <<1, 0>> THEN 1 ELSE 0]
PY == [m \in Mono |-> IF m = <<0, 1>> THEN 1 ELSE 0]
PC(c) == [m \in Mono |-> IF m = <<0, 0>> THEN c ELSE 0]
PAdd(p, q) == [m \in Mono |-> p[m] + q[m]]
PSub(p, q) == [m \in Mono |-> p[m] - q[m]]
SumOver(S, f(_)) == FoldSet(LAMBDA e, a : a + f(e), 0, S)
PMul(p, q) == [m \in Mono |-> SumOver((0..m[1]) \X (0..m[2]), LAMBDA s : p[s] * q[<<m[1] - s[1], m[2] - s[2]>>])]
Deg(p) == LET S == {m \in Mono : p[m] # 0} IN IF S = {} THEN 0 ELSE Max({m[1] + m[2] : m \in S})
Small(p, q) == Deg(p) + Deg(q) <= Degree
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Eval(p) == SumOver(Mono, LAMBDA m : p[m] * Pow(x[1], m[1]) * Pow(x[2], m[2]))
Dx(p) == [m \in Mono |-> IF m[1] = Degree THEN 0 ELSE (m[1] + 1) * p[<<m[1] + 1, m[2]>>]]
Dy(p) == [m \in Mono |-> IF m[2] = Degree THEN 0 ELSE (m[2] + 1) * p[<<m[1], m[2] + 1>>]]
Init == /\ x \in [1..2 -> Points]
        /\ regs = <<D!Var(2, 1, x[1]), D!Var(2, 2, x[2])>> /\ poly = <<PX, PY>> /\ last = "x"
R == 0..(Len(regs) - 1)
Val(a) == regs[a + 1][1]
P(a) == poly[a + 1]
Do(i, p) == /\ regs' = Append(regs, D!Ring(i, regs, 2)) /\ poly' = Append(poly, p) /\ last' = i[1] /\ UNCHANGED x
Next == /\ Len(regs) < Depth + 2
        /\ \/ \E a \in R, b \in R : \/ \E o \in {"add", "iadd"} : Do(<<o, a, b, a, a, 0>>, PAdd(P(a), P(b)))
                                    \/ \E o \in {"sub", "isub"} : Do(<<o, a, b, a, a, 0>>, PSub(P(a), P(b)))
                                    \/ Small(P(a), P(b)) /\ \E o \in {"mul", "imul"} : Do(<<o, a, b, a, a, 0>>, PMul(P(a), P(b)))
                                    \/ Do(<<"lt", a, b, a, b, 0>>, IF Val(a) < Val(b) THEN P(a) ELSE P(b))
                                    \/ Do(<<"le", a, b, b, a, 0>>, IF Val(a) <= Val(b) THEN P(b) ELSE P(a))
                                    \/ Do(<<"gt", a, b, a, b, 0>>, IF Val(a) > Val(b) THEN P(a) ELSE P(b))
                                    \/ Do(<<"ge", a, b, b, a, 0>>, IF Val(a) >= Val(b) THEN P(b) ELSE P(a))
                                    \/ Do(<<"eq", a, b, a, b, 0>>, IF Val(a) = Val(b) THEN P(a) ELSE P(b))
                                    \/ Do(<<"ne", a, b, a, b, 0>>, IF Val(a) # Val(b) THEN P(a) ELSE P(b))
           \/ \E a \in R : \/ Do(<<"neg", a, a, a, a, 0>>, PSub(PC(0), P(a)))
                           \/ \E k \in {0 - 2, 3} :
                                \/ \E o \in {"addc", "cadd"} : Do(<<o, a, a, a, a, k>>, PAdd(P(a), PC(k)))
                                \/ Do(<<"subc", a, a, a, a, k>>, PSub(P(a), PC(k)))
                                \/ Do(<<"csub", a, a, a, a, k>>, PSub(PC(k), P(a)))
                                \/ \E o \in {"mulc", "cmul"} : Do(<<o, a, a, a, a, k>>, PMul(P(a), PC(k)))
                                \/ Do(<<"const", a, a, a, a, k>>, PC(k))
Spec == Init /\ [][Next]_vars
Exact == \A k \in 1..Len(regs) : /\ regs[k][1] = Eval(poly[k])
                                 /\ regs[k][2] = <<Eval(Dx(poly[k])), Eval(Dy(poly[k]))>>
=============================================================================
