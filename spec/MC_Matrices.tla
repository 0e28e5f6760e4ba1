----------------------------- MODULE MC_Matrices -----------------------------
(* Laws that tie the operations of Matrices.tla together, on every small block *)
(* structure: what is converted, appended, deleted or viewed is the matrix    *)
(* linear algebra has in mind.                                                *)
EXTENDS Matrices, TLC
CONSTANTS Vals, Depth
VARIABLES o, n
vars == <<o, n>>
Sizes == {<<1, 2>>, <<2, 1>>}
Cell(v, r, c) == Mat(r, c, LAMBDA i, j : v * (i + 2 * j) - 1)
Family == {B(rb, cb, [i \in 1..2 |-> SetToSeq({<<c - 1, Cell(v[i][c], rb[i], cb[c])>> : c \in p[i]})]) :
            rb \in Sizes, cb \in Sizes, p \in [1..2 -> SUBSET (1..2)], v \in [1..2 -> [1..2 -> Vals]]}
Other(q) == B(<<2>>, q.cb, <<SortC(<<<<1, Cell(2, 2, q.cb[2])>>>>)>>)
OtherC == [b \in {"B", "C"} |-> IF b = "B" THEN Other(o) ELSE Convert("BC", Other(o))]
Init == o \in Family /\ n = 0
Extra(q) == CASE q.k = "B" -> Other(q)
              [] q.k = "C" -> C(2, q.nc, <<<<<<0, 3>>>>, <<>>>>, q.st, IF q.rb = <<>> THEN <<>> ELSE <<2>>, q.cb)
              [] q.k = "T" -> T(2, q.nc, <<<<1, 0, 4>>>>)
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ o' = ScaleCols(o, [j \in 1..NumCols(o) |-> j - 2])
           \/ o' = SetZero(o)
           \/ o.k \in {"T", "B"} /\ o' = AppendRows(o, Extra(o))
           \/ o.k = "C" /\ o.st = "N" /\ NumCols(o) = 3 /\ o' = AppendRows(o, Extra(o))
           \/ o.k = "T" /\ o' = Resize(o, NumRows(o) - 1, NumCols(o))
           \/ o.k = "B" /\ Len(o.rb) > 1 /\ o' = DeleteRowBlocks(o, 1)
           \/ o.k = "C" /\ o.rb # <<>> /\ Len(o.rb) > 1 /\ o.st = "N" /\ o' = DeleteRows(o, o.rb[Len(o.rb)])
           \/ \E h \in {"BC", "BCt", "BT"} : o.k = "B" /\ o' = Convert(h, o)
           \/ \E h \in {"TC", "TCt", "TD"} : o.k = "T" /\ o' = Convert(h, o)
           \/ o.k = "C" /\ o' = Convert("Ct", o)
           \/ o.k = "C" /\ o.nr = o.nc /\ o.st = "N" /\ \E s \in {"U", "L"} : o' = [o EXCEPT !.st = s]
           \/ o.k = "B" /\ \E s \in {"U", "L"} : o' = InnerProduct(o, 0, Len(o.rb), s)
Spec == Init /\ [][Next]_vars

nr == NumRows(o)
nc == NumCols(o)
X == [j \in 1..nc |-> j * j - 2]
Y == [i \in 1..nr |-> 3 - i]
Adjoint == Dot(Y, Right(o, X, [i \in 1..nr |-> 0])) = Dot(X, Left(o, Y, [j \in 1..nc |-> 0]))
Symmetric == (o.k = "C" /\ o.st # "N") => Operator(o) = Transpose(Operator(o), nr, nc)
Keeps(how, h) == Dense(Convert(how, o)) = h
Conversions ==
  CASE o.k = "B" -> /\ Keeps("BC", Dense(o)) /\ Keeps("BT", Dense(o)) /\ Keeps("BCt", Transpose(Dense(o), nr, nc))
                    /\ Convert("BCt", o) = Convert("Ct", Convert("BC", o))
                    /\ [Convert("TC", Convert("BT", o)) EXCEPT !.rb = o.rb, !.cb = o.cb] = Convert("BC", o)
    [] o.k = "T" -> Keeps("TC", Dense(o)) /\ Keeps("TD", Dense(o)) /\ Convert("TCt", o) = Convert("Ct", Convert("TC", o))
    [] o.k = "C" -> Keeps("Ct", Transpose(Dense(o), nr, nc)) /\ Convert("Ct", Convert("Ct", o)) = o
    [] OTHER -> TRUE
Appends ==
  /\ o.k = "B" => LET a == AppendRows(o, Extra(o)) IN Dense(a) = Dense(o) \o Dense(Extra(o)) /\ DeleteRowBlocks(a, 1) = o
  /\ o.k = "T" => LET a == AppendRows(o, Extra(o)) IN Dense(a) = Dense(o) \o Dense(Extra(o)) /\ Resize(a, nr, nc) = o
Products ==
  /\ o.k = "B" =>
       /\ Operator(InnerProduct(o, 0, Len(o.rb), "U")) = Gram(Dense(o), nc)
       /\ Operator(InnerProduct(o, 0, Len(o.rb), "L")) = Gram(Dense(o), nc)
       /\ \A ne \in 0..Len(o.cb) :
            /\ AddV(Apply(PartE(o, ne), SubSeq(X, 1, ColsE(o, ne))),
                    Apply(PartF(o, ne), SubSeq(X, ColsE(o, ne) + 1, nc))) = Apply(Dense(o), X)
            /\ ColumnSq(PartE(o, ne), ColsE(o, ne)) = SubSeq(Norms(o), 1, ColsE(o, ne))
Zeroed == Right(SetZero(o), X, Y) = Y
=============================================================================
