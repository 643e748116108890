----------------------------- MODULE MutateGen ------------------------------
(* Emit the codestream each list of operations makes of a codestream.        *)
EXTENDS Mutate, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, st
Init == i \in 1..Len(Obs) /\ st = "todo"
Next == st = "todo" /\ st' = "done" /\ UNCHANGED i
        /\ \E T \in {Mutant(Tree(Obs[i].cs), Obs[i].ms)} :
             PrintT("OUT " \o ToJson([i |-> i, b |-> Out(T), same |-> T.same]))
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
