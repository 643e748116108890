--------------------------- MODULE EncoderParams ----------------------------
(* An encode: [d, r], what was asked for and what came of it.                 *)
EXTENDS Encoder, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, st
vars == <<i, st>>
Init == i \in 1..Len(Obs) /\ st = "run"
Next == /\ st = "run" /\ st' = "done" /\ UNCHANGED i
        /\ IF Outcome(Obs[i].d, Obs[i].r) THEN PrintT(<<"ACCEPT", i>>)
           ELSE PrintT("WHY " \o ToJson([i |-> i, invalid |-> Invalid(Obs[i].d), ordinary |-> Ordinary(Obs[i].d), r |-> Obs[i].r]))
Spec == Init /\ [][Next]_vars
=============================================================================
