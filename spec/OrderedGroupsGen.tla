--------------------------- MODULE OrderedGroupsGen ---------------------------
(* Random histories of OrderedGroups operations, as scripts.                   *)
EXTENDS Orderings, TLC, Json
CONSTANTS MaxLen, N
VARIABLES p, script, phase
vars == <<p, script, phase>>
R(x) == RandomElement(x)
Init == p = <<>> /\ script = <<>> /\ phase = "run"
Step ==
  /\ phase = "run" /\ Len(script) < MaxLen
  /\ \E k \in {R(1..20)}, e \in {R(1..N)}, f \in {R(1..N)}, h \in {R(1..N)}, g \in {R(-1..4)} :
       CASE k <= 11 -> p' = GAdd(p, e, g) /\ script' = Append(script, <<"add", e, g>>)
         [] k <= 14 -> p' = GRemove(p, {e}) /\ script' = Append(script, <<"rem", e>>)
         [] k <= 16 -> p' = GRemove(p, {e, f, h}) /\ script' = Append(script, <<"bulk", 3, e, f, h>>)
         [] k = 17 -> IF p # <<>> /\ MaxOf(Groups(p)) < 8
                      THEN p' = GReverse(p) /\ script' = Append(script, <<"rev">>)
                      ELSE p' = <<>> /\ script' = Append(script, <<"clear">>)
         [] k = 18 -> IF p = <<>> \/ MaxOf(Groups(p)) < 8
                      THEN p' = (IF p = <<>> THEN p ELSE GReverse(p)) /\ script' = Append(script, <<"rev">>)
                      ELSE p' = p /\ script' = Append(script, <<"bulk", 0>>)
         [] k = 19 -> p' = p /\ script' = Append(script, <<"copy">>)
         [] OTHER -> IF R(1..4) = 1 THEN p' = <<>> /\ script' = Append(script, <<"clear">>)
                     ELSE p' = GAdd(p, e, g) /\ script' = Append(script, <<"add", e, g>>)
  /\ UNCHANGED phase
Emit == /\ phase = "run" /\ Len(script) >= MaxLen
        /\ PrintT("SCRIPT " \o ToJson(script))
        /\ phase' = "done" /\ UNCHANGED <<p, script>>
Spec == Init /\ [][Step \/ Emit]_vars
=============================================================================
