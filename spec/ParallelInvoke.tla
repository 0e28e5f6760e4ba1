--------------------------- MODULE ParallelInvoke ---------------------------
(* The algorithm behind a parallel loop, at the granularity of its shared     *)
(* reads and writes: tasks that take the next thread id, pass the task on to  *)
(* the pool, take the next block of indices until there are none, and report  *)
(* what they have done to the caller, which waits.  A process is a caller or  *)
(* a worker of the pool; it has a stack of tasks because the function of one  *)
(* loop may start another (block 0 of the loop From starts the loop "n").     *)
(* Checked to refine ParallelLoop.tla, and never to get stuck.                *)
EXTENDS ParallelLoop, TLC
CONSTANTS Callers, Workers, NT, NB, From
Loops == Callers \cup (IF From \in Callers THEN {"n"} ELSE {})
Procs == Callers \cup Workers
VARIABLES tid, bid, fin, queue, stack, ran, caller, returned
vars == <<tid, bid, fin, queue, stack, ran, caller, returned>>

Frame(lp, main) == [lp |-> lp, pc |-> "tid", id |-> -1, b |-> -1, n |-> 0, main |-> main]
Init == /\ tid = [x \in Loops |-> 0] /\ bid = [x \in Loops |-> 0] /\ fin = [x \in Loops |-> 0]
        /\ queue = <<>> /\ stack = [p \in Procs |-> <<>>]
        /\ ran = [x \in Loops |-> {}]
        /\ caller = [x \in Loops |-> "none"] /\ returned = [x \in Loops |-> FALSE]

Top(p) == Head(stack[p])
SetTop(p, fr) == stack' = [stack EXCEPT ![p] = <<fr>> \o Tail(@)]
Pop(p) == stack' = [stack EXCEPT ![p] = Tail(@)]
At(p, pc) == stack[p] # <<>> /\ Top(p).pc = pc

Start(p) == /\ p \in Callers /\ caller[p] = "none"
            /\ caller' = [caller EXCEPT ![p] = p]
            /\ stack' = [stack EXCEPT ![p] = <<Frame(p, TRUE)>>]
            /\ UNCHANGED <<tid, bid, fin, queue, ran, returned>>
Take(p) == /\ p \in Workers /\ stack[p] = <<>> /\ queue # <<>>
           /\ stack' = [stack EXCEPT ![p] = <<Frame(Head(queue), FALSE)>>]
           /\ queue' = Tail(queue)
           /\ UNCHANGED <<tid, bid, fin, ran, caller, returned>>
Tid(p) == /\ At(p, "tid")
          /\ LET fr == Top(p) IN
             /\ tid' = [tid EXCEPT ![fr.lp] = @ + 1]
             /\ IF tid[fr.lp] < NT THEN SetTop(p, [fr EXCEPT !.id = tid[fr.lp], !.pc = "sched"])
                ELSE IF fr.main THEN SetTop(p, [fr EXCEPT !.pc = "block"]) ELSE Pop(p)
          /\ UNCHANGED <<bid, fin, queue, ran, caller, returned>>
Sched(p) == /\ At(p, "sched")
            /\ LET fr == Top(p) IN
               SetTop(p, [fr EXCEPT !.pc = IF fr.id + 1 < NT /\ bid[fr.lp] < NB THEN "push" ELSE "fetch"])
            /\ UNCHANGED <<tid, bid, fin, queue, ran, caller, returned>>
Push(p) == /\ At(p, "push")
           /\ queue' = Append(queue, Top(p).lp)
           /\ SetTop(p, [Top(p) EXCEPT !.pc = "fetch"])
           /\ UNCHANGED <<tid, bid, fin, ran, caller, returned>>
Fetch(p) == /\ At(p, "fetch")
            /\ LET fr == Top(p) IN
               /\ bid' = [bid EXCEPT ![fr.lp] = @ + 1]
               /\ SetTop(p, IF bid[fr.lp] >= NB THEN [fr EXCEPT !.pc = "finish"]
                            ELSE [fr EXCEPT !.b = bid[fr.lp], !.n = @ + 1, !.pc = "begin"])
            /\ UNCHANGED <<tid, fin, queue, ran, caller, returned>>
BeginStep(p) ==
  /\ At(p, "begin")
  /\ LET fr == Top(p) IN
     /\ ran' = [ran EXCEPT ![fr.lp] = @ \cup {fr.b}]
     /\ IF fr.lp = From /\ fr.b = 0
        THEN /\ stack' = [stack EXCEPT ![p] = <<Frame("n", TRUE), [fr EXCEPT !.pc = "in"]>> \o Tail(@)]
             /\ caller' = [caller EXCEPT !["n"] = p]
        ELSE SetTop(p, [fr EXCEPT !.pc = "in"]) /\ UNCHANGED caller
  /\ UNCHANGED <<tid, bid, fin, queue, returned>>
EndStep(p) == /\ At(p, "in") /\ SetTop(p, [Top(p) EXCEPT !.pc = "fetch"])
              /\ UNCHANGED <<tid, bid, fin, queue, ran, caller, returned>>
Finish(p) == /\ At(p, "finish")
             /\ LET fr == Top(p) IN
                /\ fin' = [fin EXCEPT ![fr.lp] = @ + fr.n]
                /\ IF fr.main THEN SetTop(p, [fr EXCEPT !.pc = "block"]) ELSE Pop(p)
             /\ UNCHANGED <<tid, bid, queue, ran, caller, returned>>
ReturnStep(p) == /\ At(p, "block") /\ fin[Top(p).lp] = NB
                 /\ returned' = [returned EXCEPT ![Top(p).lp] = TRUE]
                 /\ Pop(p)
                 /\ UNCHANGED <<tid, bid, fin, queue, ran, caller>>
Step(p) == \/ Start(p) \/ Take(p) \/ Tid(p) \/ Sched(p) \/ Push(p) \/ Fetch(p)
           \/ BeginStep(p) \/ EndStep(p) \/ Finish(p) \/ ReturnStep(p)
AllDone == \A c \in Callers : returned[c]
Next == (\E p \in Procs : Step(p)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

-----------------------------------------------------------------------------
Running(lp) == {[f |-> p, t |-> stack[p][i].id, lo |-> stack[p][i].b] :
                <<p, i>> \in {<<q, j>> \in Procs \X (1..3) :
                              j <= Len(stack[q]) /\ stack[q][j].lp = lp /\ stack[q][j].pc = "in"}}
Abs(lp) == [f |-> caller[lp], s |-> 0, e |-> NB, nt |-> NT, mb |-> 1, tid |-> TRUE,
            todo |-> (0..(NB - 1)) \ ran[lp], run |-> Running(lp),
            open |-> caller[lp] # "none" /\ ~returned[lp]]
Refined(lp) ==
  \/ Abs(lp)' = Abs(lp)
  \/ caller[lp] = "none" /\ \E p \in Procs : Abs(lp)' = NewLoop(p, 0, NB, NT, 1, TRUE)
  \/ \E p \in Procs, i \in 0..(NT - 1), b \in 0..(NB - 1) :
       \/ MayBegin(Abs(lp), p, i, b, b + 1) /\ Abs(lp)' = Begin(Abs(lp), p, i, b, b + 1)
       \/ MayEnd(Abs(lp), p, i, b) /\ Abs(lp)' = End(Abs(lp), p, i, b)
  \/ \E p \in Procs : MayReturn(Abs(lp), p) /\ Abs(lp)' = Return(Abs(lp))
RefinesLoop == [][\A lp \in Loops : Refined(lp)]_vars
Counted == \A lp \in Loops : fin[lp] <= NB
Ends == <>AllDone

-----------------------------------------------------------------------------
(* The blocks into which a range of n indices is cut: k of them.              *)
BlockStart(n, k, b) == b * (n \div k) + LMin(b, n % k)
BlockEnd(n, k, b) == BlockStart(n, k, b) + (n \div k) + (IF b < n % k THEN 1 ELSE 0)
ASSUME \A n \in 1..14 : \A k \in 1..n :
         /\ BlockStart(n, k, 0) = 0 /\ BlockEnd(n, k, k - 1) = n
         /\ \A b \in 0..(k - 2) : BlockEnd(n, k, b) = BlockStart(n, k, b + 1)
         /\ \A b \in 0..(k - 1) : BlockEnd(n, k, b) > BlockStart(n, k, b)
=============================================================================
