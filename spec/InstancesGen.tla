---------------------------- MODULE InstancesGen ----------------------------
(* Every order in which instances with lens[k] calls can make them.          *)
EXTENDS Instances, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, pos, s
vars == <<i, pos, s>>
Init == i \in 1..Len(Obs) /\ pos = Begin(Obs[i].lens) /\ s = <<>>
Next == /\ \E k \in Ready(Obs[i].lens, pos) :
             /\ pos' = Step(pos, k) /\ s' = Append(s, k)
             /\ IF Ended(Obs[i].lens, pos') THEN PrintT("SCHED " \o ToJson([i |-> i, s |-> s'])) ELSE TRUE
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
=============================================================================
