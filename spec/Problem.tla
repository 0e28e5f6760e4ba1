------------------------------- MODULE Problem -------------------------------
(* The ceres::Problem object as a user sees it: the graph of parameter blocks *)
(* and residual blocks, the properties attached to the blocks, and the life   *)
(* of the objects handed over to it.  One action per public call.             *)
(*                                                                            *)
(* Slots are memory locations (distinct, non overlapping).  Cost functions,   *)
(* loss functions and manifolds are numbered objects; their static signature  *)
(* is given by CostSig, ManTan etc., formulas the C++ driver shares.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Slots,        \* parameter memory locations (integers >= 1)
  Costs,        \* cost function objects
  Losses,       \* loss function objects (0 = nullptr is always allowed)
  Mans,         \* manifold objects (0 = none)
  MaxRes        \* bound on residuals ever added (exploration only)

VARIABLES
  blk,          \* [present slots -> [sz, con, man, lo, hi]]
  order,        \* present slots in the order they were added
  res,          \* present residual blocks: sequence of [id, cost, loss, blocks]
  nextId,       \* id given to the next residual block
  removed,      \* TRUE once anything has been removed (order becomes free)
  manEver       \* manifolds ever handed over (they live as long as the problem)

pvars == <<blk, order, res, nextId, removed, manEver>>

\* ---- static signatures (shared with the driver) ----
Sigs == << <<1>>, <<2>>, <<1,2>>, <<2,1>>, <<3,1>>, <<1,2,3>>, <<3>>, <<1,1>>, <<2,2>> >>
CostSig(c) == Sigs[((c - 1) % 9) + 1]
CostRes(c) == (c % 3) + 1
SlotSize(p) == ((p - 1) % 3) + 1          \* size the slot is normally used with
ManAmb(m) == ((m - 1) % 3) + 1
ManTan(m) == LET t == ManAmb(m) - (((m - 1) \div 3) % 3) IN IF t < 0 THEN 0 ELSE t
NoLo == -1000000                          \* "unbounded"
NoHi == 1000000

Present == DOMAIN blk
Range(s) == {s[i] : i \in 1..Len(s)}
NewBlk(sz) == [sz |-> sz, con |-> FALSE, man |-> 0,
               lo |-> [i \in 1..sz |-> NoLo], hi |-> [i \in 1..sz |-> NoHi]]
Tan(b) == IF b.man = 0 THEN b.sz ELSE ManTan(b.man)
IsConst(b) == b.con \/ Tan(b) = 0
ResIds == {res[i].id : i \in 1..Len(res)}
ResById(id) == CHOOSE r \in Range(res) : r.id = id
Uses(p) == {r.id : r \in {x \in Range(res) : p \in Range(x.blocks)}}
CostInUse(c) == \E r \in Range(res) : r.cost = c
LossInUse(l) == \E r \in Range(res) : r.loss = l
ManInUse(m) == \E p \in Present : blk[p].man = m

Init == /\ blk = <<>> /\ order = <<>> /\ res = <<>> /\ nextId = 1
        /\ removed = FALSE /\ manEver = {}

\* ---- preconditions; their negation must abort ----
OkAddP(p, sz) == p \in Present => blk[p].sz = sz
OkMan(m, sz) == m # 0 => ManAmb(m) = sz
OkAddR(c, blocks) ==
  /\ Len(blocks) = Len(CostSig(c))
  /\ Cardinality(Range(blocks)) = Len(blocks)
  /\ \A i \in 1..Len(blocks) : blocks[i] \in Present => blk[blocks[i]].sz = CostSig(c)[i]

Added(b, o, p, sz) == IF p \in DOMAIN b THEN <<b, o>> ELSE <<(p :> NewBlk(sz)) @@ b, Append(o, p)>>

AddParameterBlock(p, sz) ==
  /\ OkAddP(p, sz)
  /\ LET n == Added(blk, order, p, sz) IN blk' = n[1] /\ order' = n[2]
  /\ UNCHANGED <<res, nextId, removed, manEver>>

\* the form with a manifold argument (which may be null: it then clears it)
AddParameterBlockM(p, sz, m) ==
  /\ OkAddP(p, sz) /\ OkMan(m, sz)
  /\ LET n == Added(blk, order, p, sz) IN
       blk' = [n[1] EXCEPT ![p].man = m] /\ order' = n[2]
  /\ manEver' = IF m = 0 THEN manEver ELSE manEver \cup {m}
  /\ UNCHANGED <<res, nextId, removed>>

RECURSIVE AddAll(_, _, _, _)
AddAll(b, o, ps, szs) ==
  IF ps = <<>> THEN <<b, o>>
  ELSE LET n == Added(b, o, Head(ps), Head(szs)) IN AddAll(n[1], n[2], Tail(ps), Tail(szs))

AddResidualBlock(c, l, blocks) ==
  /\ OkAddR(c, blocks)
  /\ LET n == AddAll(blk, order, blocks, CostSig(c)) IN blk' = n[1] /\ order' = n[2]
  /\ res' = Append(res, [id |-> nextId, cost |-> c, loss |-> l, blocks |-> blocks])
  /\ nextId' = nextId + 1
  /\ UNCHANGED <<removed, manEver>>

RemoveParameterBlock(p) ==
  /\ p \in Present
  /\ blk' = [q \in Present \ {p} |-> blk[q]]
  /\ order' = SelectSeq(order, LAMBDA q : q # p)
  /\ res' = SelectSeq(res, LAMBDA r : p \notin Range(r.blocks))
  /\ removed' = TRUE
  /\ UNCHANGED <<nextId, manEver>>

RemoveResidualBlock(id) ==
  /\ id \in ResIds
  /\ res' = SelectSeq(res, LAMBDA r : r.id # id)
  /\ removed' = TRUE
  /\ UNCHANGED <<blk, order, nextId, manEver>>

SetConstant(p) == /\ p \in Present /\ blk' = [blk EXCEPT ![p].con = TRUE]
                  /\ UNCHANGED <<order, res, nextId, removed, manEver>>
SetVariable(p) == /\ p \in Present /\ blk' = [blk EXCEPT ![p].con = FALSE]
                  /\ UNCHANGED <<order, res, nextId, removed, manEver>>
SetManifold(p, m) ==
  /\ p \in Present /\ OkMan(m, blk[p].sz)
  /\ blk' = [blk EXCEPT ![p].man = m]
  /\ manEver' = IF m = 0 THEN manEver ELSE manEver \cup {m}
  /\ UNCHANGED <<order, res, nextId, removed>>
\* indices are 0 based as in the API; v is an integer, NoLo/NoHi mean "remove"
SetLower(p, i, v) == /\ p \in Present /\ i \in 0..blk[p].sz - 1
                     /\ blk' = [blk EXCEPT ![p].lo[i + 1] = v]
                     /\ UNCHANGED <<order, res, nextId, removed, manEver>>
SetUpper(p, i, v) == /\ p \in Present /\ i \in 0..blk[p].sz - 1
                     /\ blk' = [blk EXCEPT ![p].hi[i + 1] = v]
                     /\ UNCHANGED <<order, res, nextId, removed, manEver>>

Next ==
  \/ \E p \in Slots, sz \in 1..2 : AddParameterBlock(p, sz)
  \/ \E p \in Slots, sz \in 1..2, m \in Mans \cup {0} : AddParameterBlockM(p, sz, m)
  \/ \E c \in Costs, l \in Losses \cup {0} :
        \E b \in [1..Len(CostSig(c)) -> Slots] : nextId <= MaxRes /\ AddResidualBlock(c, l, b)
  \/ \E p \in Slots : RemoveParameterBlock(p) \/ SetConstant(p) \/ SetVariable(p)
  \/ \E id \in 1..MaxRes : RemoveResidualBlock(id)
  \/ \E p \in Slots, m \in Mans \cup {0} : SetManifold(p, m)
  \/ \E p \in Slots, i \in 0..1 : SetLower(p, i, 0) \/ SetLower(p, i, NoLo) \/ SetUpper(p, i, 1)

Spec == Init /\ [][Next]_pvars

\* ---- properties of the design ----
TypeOK ==
  /\ Present \subseteq Slots
  /\ Range(order) = Present /\ Len(order) = Cardinality(Present)
  /\ \A p \in Present : Len(blk[p].lo) = blk[p].sz /\ Len(blk[p].hi) = blk[p].sz
ResidualsRefer ==
  \A r \in Range(res) :
     /\ Len(r.blocks) = Len(CostSig(r.cost))
     /\ Cardinality(Range(r.blocks)) = Len(r.blocks)
     /\ \A i \in 1..Len(r.blocks) : r.blocks[i] \in Present /\ blk[r.blocks[i]].sz = CostSig(r.cost)[i]
IdsUnique == Cardinality(ResIds) = Len(res) /\ \A id \in ResIds : id < nextId
IdsIncrease == \A i, j \in 1..Len(res) : i < j => res[i].id < res[j].id
ManifoldFits == \A p \in Present : blk[p].man # 0 =>
                   ManAmb(blk[p].man) = blk[p].sz /\ blk[p].man \in manEver
RemoveIsExact ==   \* an action property: removing never takes a residual that does not use the block
  [][\A p \in Slots : (p \in Present /\ p \notin DOMAIN blk') =>
        \A r \in Range(res) : (r \in Range(res')) <=> (p \notin Range(r.blocks))]_pvars
BlocksSurviveResidualRemoval ==
  [][Len(res') < Len(res) /\ DOMAIN blk' = Present => blk' = blk]_pvars
=============================================================================
