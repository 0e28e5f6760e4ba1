------------------------------ MODULE Covariance ------------------------------
(* A Covariance object.  Compute(request) at the current point of a Problem   *)
(* stores the requested blocks of the (pseudo-)inverse of J'J; a block is     *)
(* looked up by its pair of parameter blocks, in either order.                *)
(* Part 1: how blocks are stored and found (parameter blocks are numbered by  *)
(* address).  Part 2: what is stored, from the Problem.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* ------------------------------------------------------- 1. layout, lookup
\* blocks 1..Len(size); cst: the blocks that do not vary
Active(size, cst) == {i \in 1..Len(size) : i \notin cst}
RowOf(size, cst, b) == Sum([i \in 1..(b - 1) |-> IF i \in cst THEN 0 ELSE size[i]])
Flip(p) == IF p[1] > p[2] THEN <<p[2], p[1]>> ELSE p
\* the stored pairs, in order; a pair asked for in both orders is stored twice
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Stored(req, cst) ==
  LET s == SetToSeq({p \in req : p[1] \notin cst /\ p[2] \notin cst})
  IN SortSeq([k \in 1..Len(s) |-> Flip(s[k])], Before)
\* column indices of every row of block b
ColsOf(size, cst, stored, b) ==
  LET mine == SelectSeq(stored, LAMBDA p : p[1] = b)
  IN FlattenSeq([k \in 1..Len(mine) |-> [c \in 1..size[mine[k][2]] |-> RowOf(size, cst, mine[k][2]) + c - 1]])
\* compressed rows: for each row of the matrix its columns
Layout(size, cst, req) ==
  LET st == Stored(req, cst)
      act == SetToSortSeq(Active(size, cst), LAMBDA a, b : a < b)
  IN FlattenSeq([k \in 1..Len(act) |-> [r \in 1..size[act[k]] |-> ColsOf(size, cst, st, act[k])]])
None == <<>>
\* where block <<a, b>> starts in its row, or None
Offset(size, cst, layout, a, b) ==
  LET row == layout[RowOf(size, cst, a) + 1]
      S == {o \in 1..Len(row) : row[o] = RowOf(size, cst, b)}
  IN IF S = {} THEN None ELSE <<CHOOSE o \in S : \A p \in S : o <= p>>
\* Get(a, b), with val(r, c) the entry of the whole matrix
Lookup(size, cst, layout, a, b, zero, val(_, _)) ==
  IF a \in cst \/ b \in cst THEN <<TRUE, [i \in 1..size[a] |-> [j \in 1..size[b] |-> zero]]>>
  ELSE IF layout = <<>> THEN <<FALSE>>
  ELSE LET p == Flip(<<a, b>>)
           o == Offset(size, cst, layout, p[1], p[2])
           at(i, j) == LET r == RowOf(size, cst, p[1]) + i IN val(r - 1, layout[r][o[1] + j - 1])
       IN IF o = None THEN <<FALSE>>
          ELSE <<TRUE, [i \in 1..size[a] |-> [j \in 1..size[b] |-> IF a > b THEN at(j, i) ELSE at(i, j)]]>>
\* ------------------------------------------------------------- 2. Jacobian
\* P: blocks b = [n size, k kind, m tangent size, f fixed coordinates, p0, p1],
\*    residual blocks r = [b blocks, a matrices, q quadratic terms, s scale]
NB(P) == Len(P.b)
Used(P) == {i \in 1..NB(P) : \E k \in 1..Len(P.r) : \E w \in 1..Len(P.r[k].b) : P.r[k].b[w] + 1 = i}
Fixed(P, c) == {i \in 1..NB(P) : c[i] \/ P.b[i].m = 0 \/ i \notin Used(P)}
Free(P, i) == SetToSortSeq({j \in 0..(P.b[i].n - 1) : \A w \in 1..Len(P.b[i].f) : P.b[i].f[w] # j}, LAMBDA u, v : u < v)
\* the Jacobian of Plus at x: rows of the ambient space
PlusJ(P, x, i) ==
  LET b == P.b[i] IN
  [u \in 1..b.n |-> [v \in 1..b.m |->
     CASE b.k = 0 -> IF u = v THEN 1 ELSE 0
       [] b.k = 1 -> IF Free(P, i)[v] = u - 1 THEN 1 ELSE 0
       [] OTHER -> b.p0[u][v] + x[i][1] * b.p1[u][v]]]
Free_(P, cst) == SetToSortSeq({i \in 1..NB(P) : i \notin cst}, LAMBDA a, b : a < b)
\* row u of residual block k
RowJ(P, x, loss, act, pj, k, u) ==
  LET R == P.r[k]
      amb(w, j) == R.a[w][u][j] + (IF w = 1 /\ j = 1 THEN 2 * R.q[u] * x[R.b[1] + 1][1] ELSE 0)
      part(i) ==
        LET W == {w \in 1..Len(R.b) : R.b[w] + 1 = i}
        IN IF W = {} THEN [v \in 1..P.b[i].m |-> 0]
           ELSE LET w == CHOOSE w \in W : TRUE
                IN [v \in 1..P.b[i].m |-> (IF loss THEN R.s ELSE 1) *
                      Sum([j \in 1..P.b[i].n |-> amb(w, j) * pj[i][j][v]])]
  IN FlattenSeq([z \in 1..Len(act) |-> part(act[z])])
Jacobian(P, x, loss, cst) ==
  LET act == Free_(P, cst)
      pj == [i \in 1..NB(P) |-> PlusJ(P, x, i)]
  IN FlattenSeq([k \in 1..Len(P.r) |-> [u \in 1..Len(P.r[k].q) |-> RowJ(P, x, loss, act, pj, k, u)]])
=============================================================================
