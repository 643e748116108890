---------------------------- MODULE ReaderTrace -----------------------------
(* Each observation is [cs, same, ok, eq]: a codestream, whether it says the *)
(* same as the codestream it was made from, whether this library decoded it, *)
(* and whether to the samples of the original.  One behaviour per            *)
(* observation, one step per marker.                                         *)
EXTENDS Reader, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, R, done
vars == <<i, R, done>>
View == <<i, R.at, R.st, done>>

Init == i \in 1..Len(Obs) /\ R = Start /\ done = FALSE
Read == /\ ~Over(R)
        /\ \E r \in {Step(Obs[i].cs, R)} : R' = r
        /\ UNCHANGED <<i, done>>
Agrees(o) ==
  CASE R.st = "good" -> o.same => o.ok /\ o.eq
    [] R.st = "bad"  -> ~o.ok
    [] R.st = "soft" -> TRUE
Judge == /\ Over(R) /\ ~done /\ done' = TRUE
         /\ IF Agrees(Obs[i]) THEN PrintT(<<"ACCEPT", i>>)
            ELSE TRUE
         /\ PrintT("WHY " \o ToJson([i |-> i, st |-> R.st, at |-> R.at, why |-> R.why, ok |-> Obs[i].ok, eq |-> Obs[i].eq, same |-> Obs[i].same]))
         /\ UNCHANGED <<i, R>>
Next == Read \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
