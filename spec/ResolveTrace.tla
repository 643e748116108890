---------------------------- MODULE ResolveTrace ----------------------------
(* Validates recorded histories of file creations, removals and requests.    *)
(* A request whose answer the specification does not admit is reported and   *)
(* the history continues, so that every divergence is seen.                  *)
EXTENDS Resolve, Json, IOUtils
T == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, l
vars == <<files, i, l>>
Ev == T[i].ev[l]
Init == i \in 1..Len(T) /\ l = 1 /\ files = {}
Step ==
  /\ l <= Len(T[i].ev)
  /\ l' = l + 1 /\ UNCHANGED i
  /\ CASE Ev.e = "create" -> AddFile(Ev.f)
       [] Ev.e = "remove" -> DelFile(Ev.f)
       [] Ev.e = "get" ->
            IF Ev.status \in Answers(Ev.id, Ev.inside) /\ Ev.plainbody
            THEN Get(Ev.id, Ev.inside, Ev.status)
            ELSE PrintT(<<"REJECT", T[i].id, l>>) /\ UNCHANGED files
Done == l = Len(T[i].ev) + 1 /\ PrintT(<<"ACCEPT", i>>) /\ l' = l + 1 /\ UNCHANGED <<i, files>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
(* Design: an identifier that leads out is never answered 200, and no        *)
(* identifier is left without an answer.                                     *)
Contained == l <= Len(T[i].ev) /\ Ev.e = "get" =>
               /\ Answers(Ev.id, Ev.inside) # {}
               /\ (200 \in Answers(Ev.id, FALSE) =>
                     LET w == Walk(Comps(PctDecode(Ev.id)), <<>>) IN ~w.out /\ w.at \in files)
=============================================================================
