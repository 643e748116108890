----------------------------- MODULE ArrangeGen -----------------------------
(* Emit the codestream of every requested arrangement.                       *)
EXTENDS Arrange, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, st
Init == i \in 1..Len(Obs) /\ st = "todo"
Next == st = "todo" /\ st' = "done" /\ UNCHANGED i
        /\ PrintT("OUT " \o ToJson([i |-> i, b |-> Arranged(Obs[i].cs, Obs[i].a)]))
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
