------------------------------- MODULE Matrices -------------------------------
(* The matrix containers of Ceres as the matrices they stand for.             *)
(*   T  triplets:     ent, entries <<row, col, value>> (entries add up)       *)
(*   C  compressed row: rows, per row its <<col, value>>; st "N", "U" or "L"  *)
(*      (a symmetric matrix of which the triangle is stored); rb, cb sizes of *)
(*      row and column blocks (may be empty)                                  *)
(*   B  block sparse: rb, cb block sizes; cells, per row block <<block, M>>   *)
(*   D  dense: m                                                              *)
(*   Y  dynamic compressed row: as C, with the entries pend, per row, that    *)
(*      become the contents with the next Finalize                            *)
(* Rows, columns and blocks are counted from 0, a matrix is a sequence of     *)
(* rows, and the order of entries within a container does not count: they are *)
(* kept sorted.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Pos(sz, i) == Sum(SubSeq(sz, 1, i))          \* where block i (from 0) starts
Lex2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Lex3(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
First(a, b) == a[1] < b[1]
Sort2(s) == SortSeq(s, Lex2)
Sort3(s) == SortSeq(s, Lex3)
SortC(s) == SortSeq(s, First)

\* ---------------------------------------------------------------- matrices
Zero(nr, nc) == [i \in 1..nr |-> [j \in 1..nc |-> 0]]
Mat(nr, nc, F(_, _)) == [i \in 1..nr |-> [j \in 1..nc |-> F(i, j)]]
Transpose(m, nr, nc) == Mat(nc, nr, LAMBDA i, j : m[j][i])
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
Apply(m, x) == [i \in 1..Len(m) |-> Dot(m[i], x)]
Column(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Times(a, b, nc) == [i \in 1..Len(a) |-> [j \in 1..nc |-> Dot(a[i], Column(b, j))]]
AddV(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
ColumnSq(m, nc) == [j \in 1..nc |-> Dot(Column(m, j), Column(m, j))]
Gram(m, nc) == [i \in 1..nc |-> [j \in 1..nc |-> Dot(Column(m, i), Column(m, j))]]
SubCols(m, lo, n) == [i \in 1..Len(m) |-> SubSeq(m[i], lo + 1, lo + n)]

\* ---------------------------------------------------------------- contents
NumRows(o) == IF o.k = "B" THEN Sum(o.rb) ELSE o.nr
NumCols(o) == IF o.k = "B" THEN Sum(o.cb) ELSE o.nc
\* the entries stored, as <<row, col, value>>
BlockEntries(o, i) ==     \* of row block i (from 1)
  FlattenSeq([c \in 1..Len(o.cells[i]) |->
    FlattenSeq([r \in 1..o.rb[i] |->
      [q \in 1..o.cb[o.cells[i][c][1] + 1] |->
        <<Pos(o.rb, i - 1) + r - 1, Pos(o.cb, o.cells[i][c][1]) + q - 1, o.cells[i][c][2][r][q]>>]])])
RowEntries(rows) == FlattenSeq([i \in 1..Len(rows) |-> [e \in 1..Len(rows[i]) |-> <<i - 1, rows[i][e][1], rows[i][e][2]>>]])
Entries(o) ==
  CASE o.k = "T" -> o.ent
    [] o.k \in {"C", "Y"} -> RowEntries(o.rows)
    [] o.k = "B" -> FlattenSeq([i \in 1..Len(o.rb) |-> BlockEntries(o, i)])
    [] o.k = "D" -> FlattenSeq([i \in 1..o.nr |-> [j \in 1..o.nc |-> <<i - 1, j - 1, o.m[i][j]>>]])
Scatter(ent, nr, nc) ==
  FoldLeft(LAMBDA m, e : [m EXCEPT ![e[1] + 1][e[2] + 1] = @ + e[3]], Zero(nr, nc), ent)
Dense(o) == IF o.k = "D" THEN o.m ELSE Scatter(Entries(o), NumRows(o), NumCols(o))
Mirror(ent, keep(_)) ==
  FlattenSeq([i \in 1..Len(ent) |-> LET e == ent[i] IN
     IF ~keep(e) THEN <<>> ELSE IF e[1] = e[2] THEN <<e>> ELSE <<e, <<e[2], e[1], e[3]>>>>])
\* the operator a container stands for
Operator(o) ==
  IF o.k \in {"C", "Y"}
  THEN CASE o.st = "U" -> Scatter(Mirror(Entries(o), LAMBDA e : e[1] <= e[2]), o.nr, o.nc)
         [] o.st = "L" -> Scatter(Mirror(Entries(o), LAMBDA e : e[1] >= e[2]), o.nr, o.nc)
         [] OTHER -> Dense(o)
  ELSE Dense(o)
Right(o, x, y) == AddV(y, Apply(Operator(o), x))
Left(o, x, y) == AddV(y, Apply(Transpose(Operator(o), NumRows(o), NumCols(o)), x))
Norms(o) == ColumnSq(Operator(o), NumCols(o))

\* -------------------------------------------------------------- operations
T(nr, nc, ent) == [k |-> "T", nr |-> nr, nc |-> nc, ent |-> Sort3(ent)]
D(m, nr, nc) == [k |-> "D", nr |-> nr, nc |-> nc, m |-> m]
C(nr, nc, rows, st, rb, cb) ==
  [k |-> "C", nr |-> nr, nc |-> nc, rows |-> [i \in 1..nr |-> Sort2(rows[i])], st |-> st, rb |-> rb, cb |-> cb]
B(rb, cb, cells) == [k |-> "B", rb |-> rb, cb |-> cb, cells |-> [i \in 1..Len(rb) |-> SortC(cells[i])]]
RowsOf(ent, nr) == [i \in 1..nr |-> LET s == SelectSeq(ent, LAMBDA e : e[1] = i - 1) IN [e \in 1..Len(s) |-> <<s[e][2], s[e][3]>>]]
Swap(ent) == [i \in 1..Len(ent) |-> <<ent[i][2], ent[i][1], ent[i][3]>>]

MapValues(o, F(_, _)) ==     \* F(col, value)
  CASE o.k = "T" -> [o EXCEPT !.ent = [i \in 1..Len(@) |-> <<@[i][1], @[i][2], F(@[i][2], @[i][3])>>]]
    [] o.k \in {"C", "Y"} -> [o EXCEPT !.rows = [i \in 1..Len(@) |-> [e \in 1..Len(@[i]) |-> <<@[i][e][1], F(@[i][e][1], @[i][e][2])>>]]]
    [] o.k = "D" -> [o EXCEPT !.m = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> F(j - 1, @[i][j])]]]
    [] o.k = "B" -> [o EXCEPT !.cells = [i \in 1..Len(@) |-> [c \in 1..Len(@[i]) |->
         <<@[i][c][1], [r \in 1..o.rb[i] |-> [q \in 1..o.cb[@[i][c][1] + 1] |->
             F(Pos(o.cb, @[i][c][1]) + q - 1, @[i][c][2][r][q])]]>>]]]
Canon(o) == CASE o.k = "T" -> [o EXCEPT !.ent = Sort3(@)]
              [] o.k \in {"C", "Y"} -> [o EXCEPT !.rows = [i \in 1..Len(@) |-> Sort2(@[i])]]
              [] o.k = "B" -> [o EXCEPT !.cells = [i \in 1..Len(@) |-> SortC(@[i])]]
              [] OTHER -> o
ScaleCols(o, s) == Canon(MapValues(o, LAMBDA c, v : v * s[c + 1]))
\* a triplet matrix forgets its entries, the others keep their structure
SetZero(o) == IF o.k = "T" THEN [o EXCEPT !.ent = <<>>] ELSE Canon(MapValues(o, LAMBDA c, v : 0))

AppendRows(o, p) ==
  CASE o.k = "T" -> T(o.nr + p.nr, o.nc, o.ent \o [i \in 1..Len(p.ent) |-> <<p.ent[i][1] + o.nr, p.ent[i][2], p.ent[i][3]>>])
    [] o.k = "C" -> C(o.nr + p.nr, o.nc, o.rows \o p.rows, o.st, o.rb \o p.rb, o.cb)
    [] o.k = "B" -> B(o.rb \o p.rb, o.cb, o.cells \o p.cells)
AppendCols(o, p) ==
  T(o.nr, o.nc + p.nc, o.ent \o [i \in 1..Len(p.ent) |-> <<p.ent[i][1], p.ent[i][2] + o.nc, p.ent[i][3]>>])
Resize(o, nr, nc) == T(nr, nc, SelectSeq(o.ent, LAMBDA e : e[1] < nr /\ e[2] < nc))
RECURSIVE BlocksFor(_, _, _)
BlocksFor(rb, k, n) == IF k < Len(rb) /\ Pos(rb, k) < n THEN BlocksFor(rb, k + 1, n) ELSE k
DeleteRows(o, n) ==       \* of a compressed row matrix, the last n rows
  C(o.nr - n, o.nc, SubSeq(o.rows, 1, o.nr - n), o.st, SubSeq(o.rb, 1, BlocksFor(o.rb, 0, o.nr - n)), o.cb)
DeleteRowBlocks(o, n) ==
  B(SubSeq(o.rb, 1, Len(o.rb) - n), o.cb, SubSeq(o.cells, 1, Len(o.cells) - n))

\* ------------------------------------------------------------- conversions
Flip(st) == CASE st = "U" -> "L" [] st = "L" -> "U" [] OTHER -> st
Convert(how, o) ==
  CASE how = "TC" -> C(o.nr, o.nc, RowsOf(o.ent, o.nr), "N", <<>>, <<>>)
    [] how = "TCt" -> C(o.nc, o.nr, RowsOf(Swap(o.ent), o.nc), "N", <<>>, <<>>)
    [] how = "TD" -> D(Dense(o), o.nr, o.nc)
    [] how = "TT" -> o
    [] how = "BC" -> C(NumRows(o), NumCols(o), RowsOf(Entries(o), NumRows(o)), "N", o.rb, o.cb)
    [] how = "BCt" -> C(NumCols(o), NumRows(o), RowsOf(Swap(Entries(o)), NumCols(o)), "N", o.cb, o.rb)
    [] how = "BT" -> T(NumRows(o), NumCols(o), Entries(o))
    [] how = "Ct" -> C(o.nc, o.nr, RowsOf(Swap(Entries(o)), o.nc), Flip(o.st),
                       IF o.rb = <<>> THEN <<>> ELSE o.cb, IF o.rb = <<>> THEN <<>> ELSE o.rb)
Diagonal(kind, d, sz) ==
  LET n == Len(d)
      ent == [i \in 1..n |-> <<i - 1, i - 1, d[i]>>]
      blk(b) == Mat(sz[b], sz[b], LAMBDA i, j : IF i = j THEN d[Pos(sz, b - 1) + i] ELSE 0)
      blocks == B(sz, sz, [b \in 1..Len(sz) |-> <<<<b - 1, blk(b)>>>>])
  IN CASE kind = "T" -> T(n, n, ent)
       [] kind = "C" -> C(n, n, RowsOf(ent, n), "N", <<>>, <<>>)
       [] kind = "B" -> blocks
       [] kind = "CB" -> Convert("BC", blocks)

\* -------------------------------------------- views and products of blocks
ColsE(o, ne) == Pos(o.cb, ne)
PartE(o, ne) == SubCols(Dense(o), 0, ColsE(o, ne))
PartF(o, ne) == SubCols(Dense(o), ColsE(o, ne), NumCols(o) - ColsE(o, ne))
DiagonalBlocks(m, sz) ==
  B(sz, sz, [b \in 1..Len(sz) |-> <<<<b - 1, Mat(sz[b], sz[b], LAMBDA i, j : m[Pos(sz, b - 1) + i][Pos(sz, b - 1) + j])>>>>])
\* a view needs rows with one E cell first, then rows without
Viewable(o, ne) ==
  LET e(i) == Cardinality({c \in 1..Len(o.cells[i]) : o.cells[i][c][1] < ne})
      n == Cardinality({i \in 1..Len(o.rb) : e(i) > 0})
  IN \A i \in 1..Len(o.rb) : o.cells[i] # <<>> /\ e(i) = IF i <= n THEN 1 ELSE 0
\* M'M of row blocks lo+1..hi, of which a triangle of blocks is stored
InnerProduct(o, lo, hi, st) ==
  LET p == B(SubSeq(o.rb, lo + 1, hi), o.cb, SubSeq(o.cells, lo + 1, hi))
      n == NumCols(o)
      g == Gram(Dense(p), n)
      pairs == UNION {{<<p.cells[i][a][1], p.cells[i][b][1]>> : a, b \in 1..Len(p.cells[i])} : i \in 1..Len(p.rb)}
      keep == {q \in pairs : IF st = "U" THEN q[1] <= q[2] ELSE q[1] >= q[2]}
      ids(b) == Pos(o.cb, b) .. Pos(o.cb, b + 1) - 1
      ent == {<<r, c, g[r + 1][c + 1]>> : <<r, c>> \in UNION {ids(q[1]) \X ids(q[2]) : q \in keep}}
  IN C(n, n, RowsOf(SetToSeq(ent), n), st, o.cb, o.cb)
=============================================================================
