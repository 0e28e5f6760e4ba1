---------------------------- MODULE MatricesTrace ----------------------------
(* Histories of the real containers against Matrices.tla: a store of objects, *)
(* by the identity the driver gave them; every object the code shows is       *)
(* parsed (its layout has to be well formed) and compared with what the       *)
(* operation makes of the store.  All numbers are small integers, so nothing  *)
(* is rounded.                                                                *)
EXTENDS Matrices, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, S
vars == <<t, l, S>>
Ev == Traces[t].ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ S = <<>>

\* ---------------------------------------------------------- what is shown
SizesOf(b) == [i \in 1..Len(b) |-> b[i][1]]
Cumulative(b) == \A i \in 1..Len(b) : b[i][2] = Pos(SizesOf(b), i - 1)
ParseRows(d) ==
  [i \in 1..d.nr |-> [e \in 1..(d.rows[i + 1] - d.rows[i]) |-> <<d.cols[d.rows[i] + e], d.vals[d.rows[i] + e]>>]]
CrsForm(d) ==
  /\ Len(d.rows) = d.nr + 1
  /\ d.rows[1] = 0 /\ \A i \in 1..d.nr : d.rows[i] <= d.rows[i + 1]
  /\ d.rows[d.nr + 1] <= Len(d.cols) /\ d.rows[d.nr + 1] <= Len(d.vals)
  /\ \A e \in 1..d.rows[d.nr + 1] : d.cols[e] >= 0 /\ d.cols[e] < d.nc
\* cells <<position, length>> that cover 0..n-1 without overlap
Tile(cells, n) ==
  LET s == SortSeq(SelectSeq(cells, LAMBDA c : c[2] > 0), First)
  IN /\ FoldLeft(LAMBDA p, c : IF c[1] = p THEN p + c[2] ELSE 0 - 1000000, 0, s) = n
CellsOf(d) == FlattenSeq([i \in 1..Len(d.bs.rows) |-> [c \in 1..Len(d.bs.rows[i].c) |->
   <<d.bs.rows[i].c[c][2], d.bs.rows[i].b[1] * d.bs.cols[d.bs.rows[i].c[c][1] + 1][1]>>]])
\* the structure by columns lists the same cells, by row block, and counts them
TransposeForm(d) ==
  LET w == d.bs
      tr == d.tr
      cells(j) == FlattenSeq([i \in 1..Len(w.rows) |->
          LET s == SelectSeq(w.rows[i].c, LAMBDA c : c[1] = j - 1)
          IN [c \in 1..Len(s) |-> <<i - 1, s[c][2]>>]])
      nnz(j) == w.cols[j][1] * Sum([c \in 1..Len(cells(j)) |-> w.rows[cells(j)[c][1] + 1].b[1]])
  IN /\ Len(tr.rows) = Len(w.cols)
     /\ tr.cols = [i \in 1..Len(w.rows) |-> w.rows[i].b]
     /\ \A j \in 1..Len(w.cols) :
          /\ tr.rows[j].b = w.cols[j]
          /\ tr.rows[j].c = cells(j)
          /\ tr.rows[j].n = nnz(j)
          /\ tr.rows[j].cum = Sum([k \in 1..j |-> nnz(k)])
Form(d) ==
  CASE d.k = "T" -> \A e \in 1..Len(d.ent) : d.ent[e][1] \in 0..(d.nr - 1) /\ d.ent[e][2] \in 0..(d.nc - 1)
    [] d.k \in {"C", "Y"} -> CrsForm(d) /\ Cumulative(d.cb)
    [] d.k = "D" -> d.nnz = d.nr * d.nc
    [] d.k = "B" ->
        LET rb == [i \in 1..Len(d.bs.rows) |-> d.bs.rows[i].b] IN
        /\ Cumulative(d.bs.cols) /\ Cumulative(rb)
        /\ d.nr = Sum(SizesOf(rb)) /\ d.nc = Sum(SizesOf(d.bs.cols))
        /\ Len(d.vals) = d.nnz /\ Tile(CellsOf(d), d.nnz)
        /\ TransposeForm(d)
Parse(d) ==
  CASE d.k = "T" -> T(d.nr, d.nc, d.ent)
    [] d.k = "D" -> D(d.m, d.nr, d.nc)
    [] d.k = "C" -> C(d.nr, d.nc, ParseRows(d), d.st, SizesOf(d.rb), SizesOf(d.cb))
    [] d.k = "Y" -> [C(d.nr, d.nc, ParseRows(d), d.st, SizesOf(d.rb), SizesOf(d.cb)) EXCEPT !.k = "Y"]
    [] d.k = "B" ->
        LET cell(r, c) == [i \in 1..r.b[1] |-> LET w == d.bs.cols[c[1] + 1][1] IN SubSeq(d.vals, c[2] + (i - 1) * w + 1, c[2] + i * w)]
        IN B([i \in 1..Len(d.bs.rows) |-> d.bs.rows[i].b[1]], SizesOf(d.bs.cols),
             [i \in 1..Len(d.bs.rows) |-> [c \in 1..Len(d.bs.rows[i].c) |->
                <<d.bs.rows[i].c[c][1], cell(d.bs.rows[i], d.bs.rows[i].c[c])>>]])
\* a container the code shows is well formed and is the matrix m
Shows(d, m) == Form(d) /\ (d.k \in {"C", "Y"} => Cumulative(d.rb)) /\ Parse(d) = m
NumEntries(o) == IF o.k = "D" THEN o.nr * o.nc ELSE Len(Entries(o))

\* -------------------------------------------------------------- the store
Has(e) == e.id < Len(S)
Obj(e) == S[e.id + 1].o
Same == UNCHANGED S
Put(e, o) == IF e.id = Len(S) THEN S' = Append(S, [o |-> o, pend |-> IF o.k = "Y" THEN [i \in 1..o.nr |-> <<>>] ELSE <<>>])
             ELSE S' = [S EXCEPT ![e.id + 1].o = o]
Becomes(e, o) == Shows(e.obj, o) /\ Put(e, o)

Created(e) ==
  CASE e.k = "T" -> T(e.nr, e.nc, e.ent)
    [] e.k = "D" -> D(e.m, e.nr, e.nc)
    [] e.k = "Y" -> [C(e.nr, e.nc, [i \in 1..e.nr |-> <<>>], "N", <<>>, <<>>) EXCEPT !.k = "Y"]
    [] e.k = "B" -> Parse(e.obj)      \* laid out by the driver, in any order
SymOf(e) == C(e.nr, e.nc, RowsOf(e.ent, e.nr), e.st, e.sz, e.sz)

\* ------------------------------------------------------ block random access
\* kept in S as one record: k, sz, pairs, cells (a function of block pairs)
R == S[1]
RZero(sz, i, j) == Zero(sz[i + 1], sz[j + 1])
HasCell(k, pairs, i, j) == CASE k = "dense" -> TRUE
                             [] k = "diag" -> i = j
                             [] OTHER -> <<i, j>> \in pairs
Ids(sz) == 0..(Len(sz) - 1)
RFull(r) ==
  LET n == Sum(r.sz)
      blk(p) == CHOOSE b \in Ids(r.sz) : Pos(r.sz, b) < p /\ p <= Pos(r.sz, b + 1)
      own == [p \in 1..n |-> blk(p)]
  IN Mat(n, n, LAMBDA i, j :
       LET a == own[i] b == own[j] IN
       IF HasCell(r.k, r.pairs, a, b) THEN r.cells[<<a, b>>][i - Pos(r.sz, a)][j - Pos(r.sz, b)] ELSE 0)
RCells(r) ==      \* as a block sparse matrix
  B(r.sz, r.sz, [i \in 1..Len(r.sz) |->
     LET js == SetToSeq({j \in Ids(r.sz) : HasCell(r.k, r.pairs, i - 1, j)})
     IN [c \in 1..Len(js) |-> <<js[c], r.cells[<<i - 1, js[c]>>]>>]])
REntries(r) == RowsOf(Entries(RCells(r)), Sum(r.sz))
RMat(r) ==        \* the operator: a sparse one stands for a symmetric matrix
  LET f == RFull(r) n == Sum(r.sz) IN
  IF r.k # "sparse" THEN f
  ELSE LET own(p) == CHOOSE b \in Ids(r.sz) : Pos(r.sz, b) < p /\ p <= Pos(r.sz, b + 1)
       IN Mat(n, n, LAMBDA i, j : IF own(i) <= own(j) THEN f[i][j] ELSE f[j][i])

\* ----------------------------------------------------------------- kernels
Signed(op, v) == IF op < 0 THEN 0 - v ELSE v
Combine(op, old, v) == IF op = 0 THEN v ELSE old + Signed(op, v)

Event(e) ==
  CASE e.ev = "new" -> ~Has(e) /\ (e.k = "B" => Parse(e.obj).rb = e.rb /\ Parse(e.obj).cb = e.cb) /\ Becomes(e, Created(e))
    [] e.ev = "sym" -> ~Has(e) /\ Becomes(e, SymOf(e))
    [] e.ev = "diag" -> ~Has(e) /\ Becomes(e, Diagonal(e.how, e.d, e.sz))
    [] e.ev = "conv" -> ~Has(e) /\ Becomes(e, Convert(e.how, S[e.from + 1].o))
    [] e.ev = "assign" -> Has(e) /\ Becomes(e, S[e.from + 1].o)
    [] e.ev = "scale" -> Has(e) /\ e.g /\ Becomes(e, ScaleCols(Obj(e), e.s))
    [] e.ev = "zero" -> Has(e) /\ Becomes(e, SetZero(Obj(e)))
    [] e.ev = "approws" -> Has(e) /\ Form(e.other) /\ Becomes(e, AppendRows(Obj(e), Parse(e.other)))
    [] e.ev = "appcols" -> Has(e) /\ Becomes(e, AppendCols(Obj(e), Parse(e.other)))
    [] e.ev = "resize" -> Has(e) /\ Becomes(e, Resize(Obj(e), e.nr, e.nc))
    [] e.ev = "delblocks" -> Has(e) /\ Becomes(e, DeleteRowBlocks(Obj(e), e.n))
    [] e.ev = "delrows" -> Has(e) /\ Becomes(e, DeleteRows(Obj(e), e.n))
    [] e.ev = "same" -> Has(e) /\ Becomes(e, Obj(e))
    [] e.ev = "update" -> Has(e) /\ Becomes(e, Convert(e.how, S[e.from + 1].o))
    [] e.ev = "clear" -> Has(e) /\ S' = [S EXCEPT ![e.id + 1].pend = [i \in DOMAIN @ |-> IF e.a < i /\ i <= e.a + e.n THEN <<>> ELSE @[i]]]
    [] e.ev = "insert" -> Has(e) /\ S' = [S EXCEPT ![e.id + 1].pend[e.r + 1] = Append(@, <<e.c, e.v>>)]
    [] e.ev = "finalize" -> Has(e) /\ Becomes(e, [Obj(e) EXCEPT !.rows = [i \in 1..Obj(e).nr |-> Sort2(S[e.id + 1].pend[i])]])
    [] e.ev = "right" -> e.g /\ e.o = Right(Obj(e), e.x, e.y) /\ Same
    [] e.ev = "left" -> e.g /\ e.o = Left(Obj(e), e.x, e.y) /\ Same
    [] e.ev = "norms" -> e.g /\ e.o = Norms(Obj(e)) /\ Same
    [] e.ev = "dense" -> e.nr = NumRows(Obj(e)) /\ e.nc = NumCols(Obj(e)) /\ e.m = Dense(Obj(e)) /\ Same
    [] e.ev = "text" -> LET n == Entries(Obj(e)) IN
         /\ Sort3(e.ent) = Sort3(n)
         /\ e.back # <<>> =>
              Shows(e.back[1], T(1 + FoldLeft(LAMBDA a, q : IF q[1] > a THEN q[1] ELSE a, 0 - 1, n),
                                 1 + FoldLeft(LAMBDA a, q : IF q[2] > a THEN q[2] ELSE a, 0 - 1, n), n))
         /\ Same
    [] e.ev = "crs" -> /\ e.nr = NumRows(Obj(e)) /\ e.nc = NumCols(Obj(e)) /\ CrsForm(e)
                       /\ LET p == ParseRows(e)
                              w == IF Obj(e).k = "T" THEN RowsOf(Obj(e).ent, e.nr) ELSE Obj(e).rows
                          IN \A i \in 1..e.nr : Sort2(p[i]) = Sort2(w[i])
                       /\ Same
    [] e.ev = "size" -> /\ e.nr = NumRows(Obj(e)) /\ e.nc = NumCols(Obj(e)) /\ e.nnz = NumEntries(Obj(e))
                        /\ e.valid /\ Same
    [] e.ev = "view" -> LET o == Obj(e)
                            ce == ColsE(o, e.ne)
                            n == NumCols(o)
                            z == Zero(n, n)
         IN /\ Viewable(o, e.ne)
            /\ CASE e.op = "sizes" -> e.x = <<e.ne, Len(o.cb) - e.ne, ce, n - ce, NumRows(o), n>>
                 [] e.op = "RE" -> e.g /\ e.o = AddV(e.y, Apply(PartE(o, e.ne), e.x))
                 [] e.op = "RF" -> e.g /\ e.o = AddV(e.y, Apply(PartF(o, e.ne), e.x))
                 [] e.op = "LE" -> e.g /\ e.o = AddV(e.y, Apply(Transpose(PartE(o, e.ne), NumRows(o), ce), e.x))
                 [] e.op = "LF" -> e.g /\ e.o = AddV(e.y, Apply(Transpose(PartF(o, e.ne), NumRows(o), n - ce), e.x))
                 [] e.op = "EtE" -> Shows(e.obj, DiagonalBlocks(Gram(PartE(o, e.ne), ce), SubSeq(o.cb, 1, e.ne)))
                 [] e.op = "FtF" -> Shows(e.obj, DiagonalBlocks(Gram(PartF(o, e.ne), n - ce), SubSeq(o.cb, e.ne + 1, Len(o.cb))))
            /\ Same
    [] e.ev = "gram" -> Shows(e.obj, InnerProduct(Obj(e), e.lo, e.hi, e.obj.st)) /\ e.obj.st \in {"U", "L"} /\ Same
    [] e.ev = "rnew" ->
         LET ps == ToSet(e.pairs)
             n == Sum(e.sz) IN
         /\ e.nr = n /\ e.nc = n
         /\ S' = <<[k |-> e.k, sz |-> e.sz, pairs |-> ps,
                    cells |-> [p \in Ids(e.sz) \X Ids(e.sz) |-> RZero(e.sz, p[1], p[2])]]>>
    [] e.ev = "radd" -> /\ e.null = ~HasCell(R.k, R.pairs, e.i, e.j)
                        /\ IF e.null THEN Same
                           ELSE S' = [S EXCEPT ![1].cells[<<e.i, e.j>>] = [r \in 1..Len(@) |-> AddV(@[r], e.m[r])]]
    [] e.ev = "rzero" -> S' = [S EXCEPT ![1].cells = [p \in DOMAIN @ |-> RZero(R.sz, p[1], p[2])]]
    [] e.ev = "rread" -> e.m = RFull(R) /\ Same
    [] e.ev = "rdump" -> /\ IF e.obj.k = "B" THEN Form(e.obj) /\ Parse(e.obj) = RCells(R)
                            ELSE CrsForm(e.obj) /\ LET p == Parse(e.obj) IN \A i \in 1..p.nr : p.rows[i] = Sort2(REntries(R)[i])
                         /\ Same
    [] e.ev = "rmul" -> e.g /\ e.o = AddV(e.y, Apply(RMat(R), e.x)) /\ Same
    [] e.ev = "rinv" ->
         LET n == Sum(R.sz)
             p == Parse(e.obj)
         IN /\ Form(e.obj) /\ Times(RFull(R), Dense(p), n) = Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
            /\ Same
    [] e.ev = "mm" ->
         LET rows == IF e.tr THEN Transpose(e.a, Len(e.a), Len(e.a[1])) ELSE e.a
             p == Times(rows, e.b, e.nb)
         IN /\ e.g /\ Same
            /\ Len(e.o) = Len(e.c)
            /\ \A i \in 1..Len(e.c) : \A j \in 1..Len(e.c[i]) :
                 e.o[i][j] = IF e.r0 < i /\ i <= e.r0 + e.rc /\ e.c0 < j /\ j <= e.c0 + e.nb
                             THEN Combine(e.op, e.c[i][j], p[i - e.r0][j - e.c0]) ELSE e.c[i][j]
    [] e.ev = "mv" ->
         LET rows == IF e.tr THEN Transpose(e.a, Len(e.a), Len(e.a[1])) ELSE e.a
             p == Apply(rows, e.b)
         IN e.g /\ Same /\ e.o = [i \in 1..Len(e.c) |-> Combine(e.op, e.c[i], p[i])]
    [] e.ev = "scalar" ->
         /\ e.o = FlattenSeq([k \in 1..Len(e.perm) |-> [i \in 1..e.sz[e.perm[k] + 1] |-> Pos(e.sz, e.perm[k]) + i - 1]])
         /\ Same
    [] e.ev = "blocks" ->
         LET col(j) == SelectSeq([i \in 1..Len(e.cells) |-> i - 1], LAMBDA i : j \in ToSet(e.cells[i + 1]))
         IN /\ e.bc = [j \in 1..(e.nb + 1) |-> Sum([k \in 1..(j - 1) |-> Len(col(k - 1))])]
            /\ Len(e.br) = e.bc[e.nb + 1]
            /\ \A j \in 0..(e.nb - 1) : ToSet(SubSeq(e.br, e.bc[j + 1] + 1, e.bc[j + 2])) = ToSet(col(j))
            /\ Same
    [] e.ev = "tri" ->
         LET n == Len(e.r)
             rt == Transpose(e.r, n, n)
         IN /\ e.g
            /\ Apply(e.r, e.a) = e.x /\ Apply(rt, e.b) = e.x
            /\ Apply(rt, Apply(e.r, e.c)) = [i \in 1..n |-> IF i = e.k + 1 THEN 1 ELSE 0]
            /\ Same

Step == l <= Len(Traces[t].ev) /\ Event(Ev) /\ l' = l + 1 /\ t' = t
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
