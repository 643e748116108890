----------------------------- MODULE IiifTrace -----------------------------
(* Judges decodings observed on the real server code against IiifRequest.   *)
(* Every observation is one behaviour: the machine consumes the path element *)
(* by element (nondeterministically in lenient zones) and the observation is *)
(* accepted iff some run of the machine ends in the observed verdict.        *)
EXTENDS IiifRequest, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)
Judge == IOEnv.JUDGE        \* "values": acceptance and values; "diag": diagnosis

VARIABLES i, st, verdict
vars == <<i, st, verdict>>

Init == i \in 1..Len(Obs) /\ st = Start(Obs[i].path) /\ verdict = "run"

Consume == verdict = "run" /\ ~st.done /\ st' \in Steps(st) /\ UNCHANGED <<i, verdict>>

Conforms(o) ==
  IF st.bad.ok
  THEN IF Judge = "diag" THEN TRUE ELSE o.ok /\ (o.src = "http" \/ ValuesMatch(st.vals, o))
  ELSE ~o.ok /\ (Judge = "values" \/ MessageOk(o.msg, st.bad))

Accept == verdict = "run" /\ st.done /\ (Conforms(Obs[i]) = TRUE) /\ PrintT(<<"ACCEPT", i>>)
          /\ verdict' = (IF st.bad.ok THEN "accepted" ELSE "refused") /\ UNCHANGED <<i, st>>

Next == Consume \/ Accept
Spec == Init /\ [][Next]_vars

\* ---- properties of the specification itself ------------------------------
(* The machine always gets on: every element has a verdict.                  *)
Total == ~st.done => Steps(st) # {}
(* It stops in path order: a refusal at stage n has read exactly n-1 values. *)
FirstOffender == st.done /\ ~st.bad.ok => Len(st.vals) = st.stage - 1
(* An accepted request has one value per element.                            *)
Complete == st.done /\ st.bad.ok => Len(st.vals) = 5
=============================================================================
