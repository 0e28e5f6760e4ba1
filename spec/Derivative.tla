------------------------------ MODULE Derivative ------------------------------
(* Functors as straight line programs over registers; a register holds a dual *)
(* number <<value, partial derivatives>>.  The arithmetic of the coefficients *)
(* is a parameter, so that the laws are checked on integers and histories in  *)
(* doubles.                                                                   *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Lit(_), Less(_, _)
Zeros(n) == [i \in 1..n |-> Lit(0)]
Unit(n, k) == [i \in 1..n |-> IF i = k THEN Lit(1) ELSE Lit(0)]
Const(n, c) == <<c, Zeros(n)>>
Var(n, k, x) == <<x, Unit(n, k)>>
Comb(f(_, _), x, y) == [i \in 1..Len(x) |-> f(x[i], y[i])]
Scale(k, x) == [i \in 1..Len(x) |-> Mul(k, x[i])]
JAdd(x, y) == <<Add(x[1], y[1]), Comb(Add, x[2], y[2])>>
JSub(x, y) == <<Sub(x[1], y[1]), Comb(Sub, x[2], y[2])>>
JMul(x, y) == <<Mul(x[1], y[1]), Comb(Add, Scale(y[1], x[2]), Scale(x[1], y[2]))>>
JNeg(x) == JSub(Const(Len(x[2]), Lit(0)), x)
Pick(c, x, y) == IF c THEN x ELSE y
RingOps == {"add", "sub", "mul", "neg", "addc", "subc", "csub", "cadd", "mulc", "cmul", "iadd", "isub", "imul",
            "const", "lt", "le", "gt", "ge", "eq", "ne"}
\* i = <<op, a, b, c, d, k>> on registers r (numbered from 0 in the program)
Ring(i, r, n) ==
  LET a == r[i[2] + 1] b == r[i[3] + 1] c == r[i[4] + 1] d == r[i[5] + 1]
      k == Const(n, i[6])
      lt(x, y) == Less(x[1], y[1])
  IN CASE i[1] \in {"add", "iadd"} -> JAdd(a, b)
       [] i[1] \in {"sub", "isub"} -> JSub(a, b)
       [] i[1] \in {"mul", "imul"} -> JMul(a, b)
       [] i[1] = "neg" -> JNeg(a)
       [] i[1] \in {"addc", "cadd"} -> JAdd(a, k)
       [] i[1] = "subc" -> JSub(a, k)
       [] i[1] = "csub" -> JSub(k, a)
       [] i[1] \in {"mulc", "cmul"} -> JMul(a, k)
       [] i[1] = "const" -> k
       [] i[1] = "lt" -> Pick(lt(a, b), c, d)
       [] i[1] = "le" -> Pick(~lt(b, a), c, d)
       [] i[1] = "gt" -> Pick(lt(b, a), c, d)
       [] i[1] = "ge" -> Pick(~lt(a, b), c, d)
       [] i[1] = "eq" -> Pick(~lt(a, b) /\ ~lt(b, a), c, d)
       [] i[1] = "ne" -> Pick(lt(a, b) \/ lt(b, a), c, d)
\* all registers of the program on a point, other(i, r, n) giving what is not a ring operation
Registers(ins, x, other(_, _, _)) ==
  LET n == Len(x)
      start == [k \in 1..n |-> Var(n, k, x[k])]
  IN FoldLeft(LAMBDA r, i : Append(r, IF i[1] \in RingOps THEN Ring(i, r, n) ELSE other(i, r, n)), start, ins)
=============================================================================
