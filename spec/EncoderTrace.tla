--------------------------- MODULE EncoderTrace -----------------------------
(* A recorded history: [n, ev, eq, empty]; ev: <<call, success>>; eq[k]: the  *)
(* file is the k-th of the four that the two set-ups give.                    *)
EXTENDS Encoder, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, k, s, st
vars == <<i, k, s, st>>
View == <<i, k, st>>
Init == i \in 1..Len(Obs) /\ k = 0 /\ s = Fresh /\ st = "run"
Take == /\ st = "run" /\ k < Len(Obs[i].ev)
        /\ LET v == Obs[i].ev[k + 1]
           IN IF Allowed(Obs[i].n, s, v[1], v[2])
              THEN s' = After(Obs[i].n, s, v[1], v[2]) /\ k' = k + 1 /\ UNCHANGED st
              ELSE /\ st' = "bad" /\ UNCHANGED <<s, k>>
                   /\ PrintT("WHY " \o ToJson([i |-> i, at |-> k + 1, call |-> v[1], gave |-> v[2], state |-> s]))
        /\ UNCHANGED i
Finish == /\ st = "run" /\ k = Len(Obs[i].ev) /\ st' = "done"
          /\ LET f == File(s)
                 good == CASE f = 0 -> Obs[i].empty [] f > 0 -> Obs[i].eq[f] [] OTHER -> TRUE
             IN IF good THEN PrintT(<<"ACCEPT", i>>) ELSE PrintT("WHY " \o ToJson([i |-> i, file |-> f, state |-> s]))
          /\ UNCHANGED <<i, k, s>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
