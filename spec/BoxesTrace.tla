----------------------------- MODULE BoxesTrace -----------------------------
(* What the decoder made of a JP2 file, judged by Boxes.  A row is           *)
(*   [f, o, cs, S, hdr, space, icc, end, looks]  the file, where its         *)
(* codestream lies and how long it is, its SIZ, whether the header was read, *)
(* colour space and profile of the image, what opj_end_decompress said after *)
(* a whole decode ("ok", "no", "none"), and looks at the image               *)
(*   [sel, base, got]: base what the bare codestream gives looked at in the  *)
(* same way, got what the file gave ([ok, comps]); sel: components selected. *)
EXTENDS Boxes, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)

Wild == {"image box outside the header", "second header", "second image header", "entries of the palette", "colour without a number",
         "one component used directly"}
LookFault(r, L, v, bad, odd, u) ==
  IF ~u.base.ok THEN IF u.got.ok /\ bad # {} THEN {"taken, the codestream alone is not"} ELSE {}
  ELSE IF u.sel THEN (IF ~u.got.ok THEN IF v = "ok" THEN {"refused"} ELSE {}
                      ELSE (IF FileFaults(r.f, L) \cup HeaderFaults(L, r.S) # {} THEN {"taken"} ELSE {})
                           \cup (IF u.got.comps # u.base.comps THEN {"other samples"} ELSE {}))
  ELSE CASE v = "no" -> IF u.got.ok THEN {"taken"} ELSE {}
         [] ~u.got.ok -> IF v = "ok" THEN {"refused"} ELSE {}
         [] OTHER -> IF odd \cap Wild # {} \/ Comes(L, u.base.comps, u.got.comps) THEN {} ELSE {"other samples"}
Fault(r, L, v, bad, odd) ==
  (IF v = "ok" /\ ~r.hdr THEN {"header refused"} ELSE {})
  \cup UNION {LookFault(r, L, v, bad, odd, r.looks[k]) : k \in 1..Len(r.looks)}
  \cup (IF v = "ok" /\ r.hdr /\ r.space # Space(L) THEN {"colour space"} ELSE {})
  \cup (IF v = "ok" /\ r.hdr /\ r.icc # Profile(L) THEN {"colour profile"} ELSE {})
  \cup (IF v = "ok" /\ r.end = "no" /\ TailFaults(r.f, L) = {} THEN {"end refused"} ELSE {})

VARIABLES i, k
Init == i \in 1..Len(Obs) /\ k = 0
Judge == /\ k = 0 /\ UNCHANGED i
         /\ \E L \in {Look(Obs[i].f)} :
            \E bad \in {Faults(Obs[i].f, L, Obs[i].S, Obs[i].o)} : \E odd \in {IF bad = {} THEN Oddities(Obs[i].f, L, Obs[i].S, Obs[i].cs) ELSE {}} :
            \E f \in {Fault(Obs[i], L, IF bad # {} THEN "no" ELSE IF odd # {} THEN "may" ELSE "ok", bad, odd)} :
              IF f = {} THEN k' = 1 /\ PrintT(<<"ACCEPT", i>>)
              ELSE k' = -1 /\ PrintT("WHY " \o ToJson([i |-> i, f |-> f, bad |-> bad, odd |-> odd]))
Next == Judge
Spec == Init /\ [][Next]_<<i, k>>
=============================================================================
