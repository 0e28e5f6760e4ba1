---------------------------- MODULE MC_WorkQueue ----------------------------
(* The queue as a monitor: a mutex, a condition variable, a list and a flag;  *)
(* and a pool of workers on top of it, which its owner stops and joins.       *)
(* Checked: elements come out once and in order, nobody waits although there  *)
(* is something for them to do, and the pool has run everything when its      *)
(* owner has joined it.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Scenario
\* scenario 1: producers and consumers;  2: a pool of two workers, 3: stop and
\* re-arm
Prog == CASE Scenario = 1 -> [a |-> <<"push", "push">>, b |-> <<"wait", "push">>, c |-> <<"wait", "pop">>, d |-> <<"wait">>]
          [] Scenario = 2 -> [a |-> <<"push", "push", "stop", "join">>, b |-> <<"push">>, v |-> <<"loop">>, w |-> <<"loop">>]
          [] OTHER -> [a |-> <<"push", "stop", "enable">>, b |-> <<"wait", "wait">>, c |-> <<"wait">>, d |-> <<"push">>]
Procs == DOMAIN Prog
Loopers == {p \in Procs : Prog[p] = <<"loop">>}
VARIABLES q, w, lock, pc, at, out, pushed, popped, work
vars == <<q, w, lock, pc, at, out, pushed, popped, work>>
Init == /\ q = <<>> /\ w = TRUE /\ lock = "free" /\ pc = [p \in Procs |-> "idle"] /\ at = [p \in Procs |-> 1]
        /\ out = [p \in Procs |-> 0] /\ pushed = <<>> /\ popped = <<>> /\ work = {}
Op(p) == Prog[p][at[p]]
Next1(p) == IF Op(p) = "loop" THEN at ELSE [at EXCEPT ![p] = @ + 1]
Left(p) == at[p] <= Len(Prog[p])
Waiters == {p \in Procs : pc[p] = "cv"}
\* somebody who waits goes on; nobody is forced to when there is nobody
Notify1(f) == IF Waiters = {} THEN {f} ELSE {[f EXCEPT ![x] = "relock"] : x \in Waiters}

Lock(p) == /\ pc[p] = "idle" /\ Left(p) /\ Op(p) # "join" /\ lock = "free"
           /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "in"]
           /\ UNCHANGED <<q, w, at, out, pushed, popped, work>>
Relock(p) == /\ pc[p] = "relock" /\ lock = "free"
             /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "in"]
             /\ UNCHANGED <<q, w, at, out, pushed, popped, work>>
In(p) == /\ pc[p] = "in"
         /\ CASE Op(p) = "push" ->
                   LET v == Len(pushed) + 1 IN
                   /\ q' = Append(q, v) /\ pushed' = Append(pushed, v)
                   /\ pc' \in Notify1([pc EXCEPT ![p] = "out"])
                   /\ UNCHANGED <<w, lock, popped, work>>
              [] Op(p) = "stop" -> /\ w' = FALSE
                                   /\ pc' = [x \in Procs |-> IF x = p THEN "out" ELSE IF pc[x] = "cv" THEN "relock" ELSE pc[x]]
                                   /\ UNCHANGED <<q, lock, pushed, popped, work>>
              [] Op(p) = "enable" -> w' = TRUE /\ pc' = [pc EXCEPT ![p] = "out"] /\ UNCHANGED <<q, lock, pushed, popped, work>>
              [] Op(p) \in {"wait", "loop"} /\ w /\ q = <<>> ->
                   /\ pc' = [pc EXCEPT ![p] = "cv"] /\ lock' = "free"
                   /\ UNCHANGED <<q, w, pushed, popped, work>>
              [] OTHER -> IF q = <<>>
                          THEN /\ pc' = [pc EXCEPT ![p] = IF Op(p) = "loop" THEN "exit" ELSE "out"]
                               /\ UNCHANGED <<q, w, lock, pushed, popped, work>>
                          ELSE /\ q' = Tail(q) /\ popped' = Append(popped, Head(q))
                               /\ pc' = [pc EXCEPT ![p] = IF Op(p) = "loop" THEN "run" ELSE "out"]
                               /\ out' = [out EXCEPT ![p] = Head(q)]
                               /\ UNCHANGED <<w, lock, pushed, work>>
         /\ UNCHANGED <<at>> /\ (q' = q \/ Op(p) = "push" => UNCHANGED out)
Out(p) == /\ pc[p] \in {"out", "run", "exit"} /\ lock = p
          /\ lock' = "free"
          /\ CASE pc[p] = "out" -> pc' = [pc EXCEPT ![p] = "idle"] /\ at' = Next1(p)
               [] pc[p] = "run" -> pc' = [pc EXCEPT ![p] = "task"] /\ UNCHANGED at
               [] OTHER -> pc' = [pc EXCEPT ![p] = "gone"] /\ at' = [at EXCEPT ![p] = @ + 1]
          /\ UNCHANGED <<q, w, out, pushed, popped, work>>
Task(p) == /\ pc[p] = "task" /\ work' = work \cup {out[p]}
           /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ UNCHANGED <<q, w, lock, at, out, pushed, popped>>
Spurious(p) == /\ pc[p] = "cv" /\ pc' = [pc EXCEPT ![p] = "relock"]
               /\ UNCHANGED <<q, w, lock, at, out, pushed, popped, work>>
Join(p) == /\ pc[p] = "idle" /\ Left(p) /\ Op(p) = "join" /\ \A x \in Loopers : pc[x] = "gone"
           /\ at' = Next1(p)
           /\ UNCHANGED <<q, w, lock, pc, out, pushed, popped, work>>
Step(p) == Lock(p) \/ Relock(p) \/ In(p) \/ Out(p) \/ Task(p) \/ Join(p)
Next == \E p \in Procs : Step(p) \/ Spurious(p)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
InOrder == popped \o q = pushed
Mutex == \A p \in Procs : pc[p] \in {"in", "out", "run", "exit"} => lock = p
\* If nobody can move (but for waking up for no reason), whoever waits has to.
NoLostWakeup == (\A p \in Procs : ~ENABLED Step(p)) =>
                  /\ \A p \in Procs : pc[p] = "cv" => q = <<>> /\ w
                  /\ \A p \in Procs : pc[p] = "cv" \/ ~Left(p) \/ Op(p) = "join"
                  /\ Scenario = 2 => \A p \in Procs : ~Left(p)
\* (b may add a task after the owner has joined the workers)
PoolDone == Scenario = 2 /\ ~Left("a") => \A i \in 1..Len(popped) : popped[i] \in work
PoolRan == Scenario = 2 /\ ~Left("a") /\ ~Left("b") /\ pc["b"] = "idle" =>
             work = 1..Len(pushed) \/ q # <<>>
=============================================================================
