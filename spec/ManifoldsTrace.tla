---------------------------- MODULE ManifoldsTrace ----------------------------
(* Recorded calls of real manifolds against Manifolds.tla.                     *)
(* An "at" event fixes the point x and gives PlusJacobian and MinusJacobian    *)
(* there; the calls that follow use that x.  Euclidean and subset factors are  *)
(* compared exactly; spheres and lines may choose any orthonormal basis of     *)
(* the tangent space, which their PlusJacobian reveals.                        *)
EXTENDS Manifolds, Dbl, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, x, J
vars == <<t, l, x, J>>
T == Traces[t]
Ev == T.ev[l]
M == T.m
DZero == DInt(0)
DOne == DInt(1)

Init == t \in 1..Len(Traces) /\ l = 1 /\ x = <<>> /\ J = <<>>

Tol == DLit("1e-12")
Near(a, b, size) == VNear(a, b, Tol, DMul(Tol, DAdd(1, size)))
Col(A, c) == [i \in 1..Len(A) |-> A[i][c]]
\* quaternions as <<w, x, y, z>>, whatever the order in memory
W(m, q) == IF m.k = "Q" THEN q ELSE <<q[4], q[1], q[2], q[3]>>
QMul(a, b) ==
  LET s(p, q, r, u) == DAdd(DAdd(DAdd(p, q), r), u)
      n(p, q) == DNeg(DMul(p, q))
      p(u, v) == DMul(u, v)
  IN << s(p(a[1], b[1]), n(a[2], b[2]), n(a[3], b[3]), n(a[4], b[4])),
        s(p(a[1], b[2]), p(a[2], b[1]), p(a[3], b[4]), n(a[4], b[3])),
        s(p(a[1], b[3]), n(a[2], b[4]), p(a[3], b[1]), p(a[4], b[2])),
        s(p(a[1], b[4]), p(a[2], b[3]), n(a[3], b[2]), p(a[4], b[1])) >>
Conj(a) == <<a[1], DNeg(a[2]), DNeg(a[3]), DNeg(a[4])>>
Unit(j) == [i \in 1..4 |-> IF i = j THEN DOne ELSE DZero]
Imag(a) == <<a[2], a[3], a[4]>>
Sinc(s) == IF DEq(s, 0) THEN DOne ELSE DDiv(DSin(s), s)

\* the operations of the factors, as relations
Sphere(n, p, A) ==     \* A: tangent basis at p, scaled by |p|
  LET q == VDot(p, p) IN
  /\ \A c \in 1..(n - 1) : DNear(VDot(Col(A, c), p), 0, 0, DMul(Tol, q))
  /\ \A c, e \in 1..(n - 1) : DNear(VDot(Col(A, c), Col(A, e)), IF c = e THEN q ELSE DZero, Tol, DMul(Tol, q))
Geodesic(p, A, d) == LET s == VNorm(d) IN VAdd(VScale(DCos(s), p), VScale(Sinc(s), MV(A, d)))
Angle(n, A, p, q, d) ==   \* d is the step from p to q
  LET pp == VDot(p, p)
      w == VScale(DDiv(1, pp), MTV(A, q, n - 1))
      c == DDiv(VDot(p, q), pp)
      s == VNorm(w)
      a == VScale(IF DEq(s, 0) THEN DOne ELSE DDiv(DAtan2(s, c), s), w)
  IN \* half way round, every direction is right
     IF DLt(c, 0) /\ DLe(s, DMul(DNeg(c), DLit("1e-3"))) THEN DNear(VNorm(d), DAtan2(s, c), Tol, DLit("1e-9"))
     ELSE VNear(d, a, Tol, DLit("1e-11"))
Half(n, v, k) == SubSeq(v, (k - 1) * n + 1, k * n)

RECURSIVE JacOk(_, _, _, _), PlusOk(_, _, _, _, _), MinusOk(_, _, _, _, _), Fails(_, _)
Fails(m, op) == CASE m.k = "F" -> op \in ToSet(m.b)
                  [] m.k = "P" -> \E j \in 1..Len(m.f) : Fails(m.f[j], op)
                  [] OTHER -> FALSE
Same(A, B, nr, nc) == \A i \in 1..nr : \A c \in 1..nc : DEq(A[i][c], B[i][c])
\* A: PlusJacobian, B: MinusJacobian at p
JacOk(m, p, A, B) ==
  CASE m.k \in {"E", "F"} -> /\ Same(A, PlusJ([k |-> "E", n |-> m.n]), m.n, m.n)
                             /\ Same(B, PlusJ([k |-> "E", n |-> m.n]), m.n, m.n)
    [] m.k = "S" -> LET K == PlusJ(m) IN /\ Same(A, K, m.n, Tan(m))
                                         /\ \A i \in 1..Tan(m) : \A c \in 1..m.n : DEq(B[i][c], K[c][i])
    [] m.k \in {"Q", "R"} ->
         /\ \A c \in 1..3 : VEq(W(m, Col(A, c)), QMul(Unit(c + 1), W(m, p)))
         /\ \A c \in 1..4 : LET e == W(m, [i \in 1..4 |-> IF i = c THEN DOne ELSE DZero])
                            IN VEq(Col(B, c), Imag(QMul(e, Conj(W(m, p)))))
    [] m.k = "O" -> /\ Sphere(m.n, p, A)
                    /\ LET q == VDot(p, p) IN
                       \A i \in 1..m.n - 1 : VNear(B[i], VScale(DDiv(1, q), Col(A, i)), Tol, DDiv(Tol, DSqrt(q)))
    [] m.k = "L" ->
         LET n == m.n
             dir == Half(n, p, 2)
             q == VDot(dir, dir)
             Ao == Block(A, 0, n, 0, n - 1)
             Ad == Block(A, n, n, n - 1, n - 1)
         IN /\ Sphere(n, dir, Ad)
            /\ \A i \in 1..n : \A c \in 1..n - 1 : /\ DEq(A[i][n - 1 + c], 0) /\ DEq(A[n + i][c], 0)
                                                   /\ DEq(B[n - 1 + c][i], 0) /\ DEq(B[c][n + i], 0)
            \* the origin moves perpendicularly to the direction, in unit steps
            /\ \A c \in 1..n - 1 : /\ DNear(VDot(Col(Ao, c), dir), 0, 0, DMul(Tol, DAdd(1, DSqrt(q))))
                                   /\ \A e \in 1..n - 1 : DNear(VDot(Col(Ao, c), Col(Ao, e)), IF c = e THEN DOne ELSE DZero, Tol, Tol)
            /\ \A i \in 1..n - 1 : /\ VNear(SubSeq(B[i], 1, n), Col(Ao, i), Tol, Tol)
                                   /\ VNear(SubSeq(B[n - 1 + i], n + 1, 2 * n), VScale(DDiv(1, q), Col(Ad, i)), Tol, DDiv(Tol, DSqrt(q)))
    [] m.k = "P" ->
         /\ \A j \in 1..Len(m.f) :
              LET a == AmbSum(m.f, j - 1)
                  b == TanSum(m.f, j - 1)
                  na == Amb(m.f[j])
                  nt == Tan(m.f[j])
              IN /\ JacOk(m.f[j], SubSeq(p, a + 1, a + na), Block(A, a, na, b, nt), Block(B, b, nt, a, na))
                 /\ \A i \in 1..na : \A c \in (1..Tan(m)) \ (b + 1..b + nt) : DEq(A[a + i][c], 0) /\ DEq(B[c][a + i], 0)
\* y is p moved by d; A the PlusJacobian at p
PlusOk(m, p, A, d, y) ==
  CASE m.k \in {"E", "F"} -> VEq(y, VAdd(p, d))
    [] m.k = "S" -> VEq(y, Plus(m, p, d))
    [] m.k \in {"Q", "R"} ->
         LET s == VNorm(d)
             q == <<DCos(s)>> \o VScale(Sinc(s), d)
         IN IF DEq(s, 0) THEN y = p ELSE Near(W(m, y), QMul(q, W(m, p)), VNorm(p))
    [] m.k = "O" -> Near(y, Geodesic(p, A, d), VNorm(p)) /\ (DEq(VNorm(d), 0) => VEq(y, p))
    [] m.k = "L" ->
         LET n == m.n
             od == SubSeq(d, 1, n - 1)
             dd == SubSeq(d, n, 2 * n - 2)
         IN /\ Near(Half(n, y, 1), VAdd(Half(n, p, 1), MV(Block(A, 0, n, 0, n - 1), od)), DAdd(VNorm(p), VNorm(od)))
            /\ Near(Half(n, y, 2), Geodesic(Half(n, p, 2), Block(A, n, n, n - 1, n - 1), dd), VNorm(Half(n, p, 2)))
            /\ DEq(VNorm(dd), 0) => VEq(Half(n, y, 2), Half(n, p, 2))
    [] m.k = "P" -> \A j \in 1..Len(m.f) :
         PlusOk(m.f[j], APart(m.f, p, j), Block(A, AmbSum(m.f, j - 1), Amb(m.f[j]), TanSum(m.f, j - 1), Tan(m.f[j])),
                TPart(m.f, d, j), APart(m.f, y, j))
\* d is the step from p to y
MinusOk(m, p, A, y, d) ==
  CASE m.k \in {"E", "F"} -> VEq(d, VSub(y, p))
    [] m.k = "S" -> VEq(d, Minus(m, y, p))
    [] m.k \in {"Q", "R"} ->
         LET z == QMul(W(m, y), Conj(W(m, p)))
             s == VNorm(Imag(z))
         IN VNear(d, VScale(IF DEq(s, 0) THEN DZero ELSE DDiv(DAtan2(s, z[1]), s), Imag(z)), Tol, DLit("1e-11"))
    [] m.k = "O" -> Angle(m.n, A, p, y, d)
    [] m.k = "L" ->
         LET n == m.n IN
         /\ Near(SubSeq(d, 1, n - 1), MTV(Block(A, 0, n, 0, n - 1), VSub(Half(n, y, 1), Half(n, p, 1)), n - 1), DAdd(VNorm(y), VNorm(p)))
         /\ Angle(n, Block(A, n, n, n - 1, n - 1), Half(n, p, 2), Half(n, y, 2), SubSeq(d, n, 2 * n - 2))
    [] m.k = "P" -> \A j \in 1..Len(m.f) :
         MinusOk(m.f[j], APart(m.f, p, j), Block(A, AmbSum(m.f, j - 1), Amb(m.f[j]), TanSum(m.f, j - 1), Tan(m.f[j])),
                 APart(m.f, y, j), TPart(m.f, d, j))

\* ------------------------------------------------------------ events
\* every output keeps the memory around it as it was (g)
RECURSIVE Legal(_)
Legal(m) == CASE m.k = "S" -> SubsetOk(m.n, m.c)
              [] m.k = "P" -> \A j \in 1..Len(m.f) : Legal(m.f[j])
              [] OTHER -> TRUE
Make == /\ Ev.op = "make" /\ Legal(M) /\ Ev.a = Amb(M) /\ Ev.t = Tan(M) /\ UNCHANGED <<x, J>>
Refuse == Ev.op = "refused" /\ ~SubsetOk(Ev.n, Ev.c) /\ UNCHANGED <<x, J>>
At == /\ Ev.op = "at" /\ Ev.g
      /\ Ev.rp = ~Fails(M, "pj") /\ Ev.rm = ~Fails(M, "mj")
      /\ (Ev.rp /\ Ev.rm) => JacOk(M, Ev.x, Ev.A, Ev.B)
      /\ x' = Ev.x /\ J' = Ev.A
Usable == ~Fails(M, "pj")
Plus_ == /\ Ev.op = "plus" /\ Ev.g /\ Ev.r = ~Fails(M, "plus")
         /\ (Ev.r /\ Usable) => PlusOk(M, x, J, Ev.d, Ev.y)
         /\ UNCHANGED <<x, J>>
Minus_ == /\ Ev.op = "minus" /\ Ev.g /\ Ev.r = ~Fails(M, "minus")
          /\ (Ev.r /\ Usable) => MinusOk(M, x, J, Ev.y, Ev.d)
          /\ UNCHANGED <<x, J>>
\* there and back: the step is found again
Back == /\ Ev.op = "back" /\ Ev.g /\ Ev.r = ~(Fails(M, "plus") \/ Fails(M, "minus"))
        /\ Ev.r => IF Linear(M) /\ Ev.int THEN VEq(Ev.e, Ev.d) ELSE VNear(Ev.e, Ev.d, DLit("1e-9"), DLit("1e-9"))
        /\ UNCHANGED <<x, J>>
\* rows of ambient vectors times the PlusJacobian
Right == /\ Ev.op = "right" /\ Ev.g
         /\ Ev.r = ~Fails(M, "pj")
         /\ Ev.r => \A i \in 1..Len(Ev.m) :
              LET w == MTV(J, Ev.m[i], Tan(M)) IN
              IF Linear(M) THEN VEq(Ev.p[i], w) ELSE VNear(Ev.p[i], w, Tol, DMul(Tol, DMul(VNorm(Ev.m[i]), DAdd(1, VNorm(x)))))
         /\ UNCHANGED <<x, J>>
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == \/ Done
        \/ /\ l <= Len(T.ev)
           /\ CASE Ev.op = "make" -> Make [] Ev.op = "refused" -> Refuse [] Ev.op = "at" -> At
                [] Ev.op = "plus" -> Plus_ [] Ev.op = "minus" -> Minus_ [] Ev.op = "back" -> Back
                [] Ev.op = "right" -> Right
           /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
