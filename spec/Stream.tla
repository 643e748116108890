------------------------------- MODULE Stream -------------------------------
(* What the library may do to a stream of the caller, and what its calls     *)
(* promise about it.  A row is one operation on one stream:                  *)
(*   out    encoding into the stream (else decoding from it)                 *)
(*   n      bytes of the source, or of the complete file                     *)
(*   log    callbacks made, [k, a, b]: "r" read of a bytes gave b, "w" write *)
(*          of a bytes took b, "s" skip, "k" seek; capital letters failed    *)
(*   whole  the log is complete                                              *)
(*   failed callbacks that failed, able: the stream has every function       *)
(*   known  the source told its length, strict: strict mode                  *)
(*   ok     every call reported success                                      *)
(*   same   result (image, or bytes the sink holds) is the one wanted        *)
(*   freed  how often the user data was given back                           *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES i, j,   \* row, callback
          pos,    \* where the caller's stream stands
          top,    \* out: bytes the sink holds
          holes,  \* out: bytes passed over and not written yet
          pend,   \* out: bytes offered last and not taken
          ends    \* in: the source has said that it ended
vars == <<i, j, pos, top, holes, pend, ends>>
Row == Obs[i]
Ev == Row.log[j]

Init == i \in 1..Len(Obs) /\ j = 1 /\ pos = 0 /\ top = 0 /\ holes = {} /\ pend = 0 /\ ends = FALSE

Inside(p) == 0 <= p /\ p <= (IF Row.out THEN top ELSE Row.n)
\* A source gives what it has, at most what is asked for
Read  == /\ Ev.k = "r" /\ ~Row.out /\ Ev.a > 0 /\ Ev.b \in 0..Ev.a /\ Inside(pos + Ev.b)
         /\ pos' = pos + Ev.b /\ ends' = (Ev.b = 0) /\ UNCHANGED <<top, holes, pend>>
\* Bytes follow each other: what a sink has not taken is offered again
Write == /\ Ev.k = "w" /\ Row.out /\ Ev.a > 0 /\ Ev.b \in 1..Ev.a /\ Ev.a >= pend /\ pos <= top
         /\ pos' = pos + Ev.b /\ pend' = Ev.a - Ev.b /\ top' = (IF pos + Ev.b > top THEN pos + Ev.b ELSE top) /\ UNCHANGED ends
         /\ holes' = holes \ (pos..pos + Ev.b - 1)
\* Nothing is skipped or left behind while bytes wait to be written
Skip  == /\ Ev.k = "s" /\ pend = 0 /\ Ev.b \in 1..Ev.a /\ UNCHANGED <<pend, ends>>
         /\ IF Row.out THEN Ev.a <= 16 ELSE Inside(pos + Ev.a)
         /\ pos' = pos + Ev.b
         /\ holes' = (IF Row.out THEN holes \cup (top..pos + Ev.b - 1) ELSE holes)
         /\ top' = (IF Row.out /\ pos + Ev.b > top THEN pos + Ev.b ELSE top)
Seek  == /\ Ev.k = "k" /\ pend = 0 /\ Inside(Ev.a)
         /\ pos' = Ev.a /\ UNCHANGED <<top, holes, pend, ends>>
\* A callback that failed changes nothing; after a failed write the rest is not asked for
Fail  == Ev.k \in {"R", "W", "S", "K"} /\ pend' = (IF Ev.k = "W" THEN 0 ELSE pend) /\ UNCHANGED <<pos, top, holes, ends>>

Fault ==
  IF Row.freed # 1 THEN "user data not given back once"
  ELSE IF ~Row.ok /\ Row.failed = 0 /\ Row.able /\ Row.known THEN "refused"
  ELSE IF Row.ok /\ Row.strict /\ ~Row.same THEN "success with another result"
  ELSE IF Row.whole /\ Row.ok /\ Row.out /\ (pend # 0 \/ holes # {} \/ top # Row.n) THEN "success before everything was written"
  ELSE ""

Call == j \in 1..Len(Row.log) /\ (Read \/ Write \/ Skip \/ Seek \/ Fail) /\ j' = j + 1 /\ UNCHANGED i
Done == j = Len(Row.log) + 1 /\ j' = 0 /\ UNCHANGED <<i, pos, top, holes, pend, ends>>
        /\ \E f \in {Fault} : IF f = "" THEN PrintT(<<"ACCEPT", i>>) ELSE PrintT("WHY " \o ToJson([i |-> i, f |-> f]))
\* A callback that no stream of this kind should see
Odd  == /\ j \in 1..Len(Row.log) /\ ~ENABLED Call /\ j' = 0 /\ UNCHANGED <<i, pos, top, holes, pend, ends>>
        /\ PrintT("WHY " \o ToJson([i |-> i, f |-> "callback out of place", j |-> j, k |-> Ev.k, a |-> Ev.a, b |-> Ev.b, pos |-> pos, top |-> top, pend |-> pend]))
Next == Call \/ Done \/ Odd
Spec == Init /\ [][Next]_vars
=============================================================================
