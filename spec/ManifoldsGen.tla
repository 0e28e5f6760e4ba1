----------------------------- MODULE ManifoldsGen -----------------------------
(* Random manifold terms, built on a stack; printed in postfix.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLeaves, Curved
VARIABLES depth, script, leaves, phase
vars == <<depth, script, leaves, phase>>
R(s) == RandomElement(s)
Init == depth = 0 /\ script = <<>> /\ leaves = 0 /\ phase = "run"
\* a random sequence of distinct elements of 0..n-1, now and then an illegal one
Subset(n) == LET k == R(0..n)
                 RECURSIVE draw(_, _)
                 draw(left, j) == IF j = 0 THEN <<>> ELSE LET e == R(left) IN <<e>> \o draw(left \ {e}, j - 1)
                 d == IF n = 0 THEN <<>> ELSE draw(0..(n - 1), k)
             IN IF R(1..14) = 1 THEN <<R({-1, n} \cup {d[i] : i \in 1..Len(d)})>> \o d ELSE d
\* (z, a variable's value, keeps TLC from evaluating this once and for all)
Leaf(z) == LET kind == R({i \in (IF Curved THEN 1..10 ELSE 1..4) : z >= 0}) IN
        CASE kind \in {1, 2} -> <<"E", R(0..4), R(0..1)>>
          [] kind \in {3, 4} -> LET n == R(0..6) IN <<"S", n, Subset(n)>>
          [] kind \in {5} -> <<"Q">>
          [] kind \in {6} -> <<"R">>
          [] kind \in {7} -> <<"O", R(2..5), R(0..1)>>
          [] kind \in {8} -> <<"L", R(2..4), R(0..1)>>
          [] kind = 9 -> IF R(1..2) = 1 THEN <<"F", R(1..3), R(1..15)>> ELSE <<"E", R(0..4), R(0..1)>>
          \* a product type that holds its factors by value
          [] kind = 10 -> <<"V", R(1..6), R(2..4), Subset(3)>>
Push == /\ phase = "run" /\ leaves < MaxLeaves /\ depth < 5
        /\ \E x \in {Leaf(leaves)} : script' = Append(script, x)
        /\ depth' = depth + 1 /\ leaves' = leaves + 1 /\ UNCHANGED phase
\* the product of the top k, held as unique, shared or raw pointers
Join == /\ phase = "run" /\ depth >= 2
        /\ \E k \in {R(2..depth)}, h \in {R(0..2)} :
             script' = Append(script, <<"P", k, h>>) /\ depth' = depth - k + 1
        /\ UNCHANGED <<leaves, phase>>
Emit == /\ phase = "run" /\ depth = 1
        /\ PrintT("SCRIPT " \o ToJson(script))
        /\ phase' = "done" /\ UNCHANGED <<depth, script, leaves>>
\* keep building with some probability
Choice == IF depth = 0 THEN "push" ELSE IF depth = 1 THEN R({"push", "emit"}) ELSE R({"push", "join"})
Next == \E c \in {Choice} :
          CASE c = "push" -> IF leaves < MaxLeaves /\ depth < 5 THEN Push ELSE IF depth >= 2 THEN Join ELSE Emit
            [] c = "join" -> Join
            [] c = "emit" -> Emit
Spec == Init /\ [][Next]_vars
=============================================================================
