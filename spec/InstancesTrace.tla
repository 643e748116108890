--------------------------- MODULE InstancesTrace ---------------------------
(* Each observation is [alone, ev]: what each instance's calls give alone,   *)
(* and an execution, a sequence of events <<k, r>>: instance k made its next *)
(* call and got r.  Accepted when every event is a step of Instances and no  *)
(* call is missing.                                                          *)
EXTENDS Instances, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, e, pos, st
vars == <<i, e, pos, st>>
View == <<i, e, st>>
Lens(o) == [k \in DOMAIN o.alone |-> Len(o.alone[k])]
Init == i \in 1..Len(Obs) /\ e = 0 /\ pos = Begin(Lens(Obs[i])) /\ st = "run"
Take == /\ st = "run" /\ e < Len(Obs[i].ev)
        /\ LET v == Obs[i].ev[e + 1]
               good == v[1] \in Ready(Lens(Obs[i]), pos) /\ v[2] = Gives(Obs[i].alone, pos, v[1])
           IN IF good THEN pos' = Step(pos, v[1]) /\ e' = e + 1 /\ UNCHANGED st
              ELSE /\ st' = "bad" /\ UNCHANGED <<pos, e>>
                   /\ PrintT("WHY " \o ToJson([i |-> i, at |-> e, k |-> v[1], call |-> pos[v[1]] + 1]))
        /\ UNCHANGED i
Finish == /\ st = "run" /\ e = Len(Obs[i].ev) /\ st' = "done"
          /\ IF Ended(Lens(Obs[i]), pos) THEN PrintT(<<"ACCEPT", i>>) ELSE TRUE
          /\ UNCHANGED <<i, e, pos>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
