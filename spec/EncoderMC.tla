----------------------------- MODULE EncoderMC ------------------------------
(* Design check: every history of calls on an encoder that obeys Encoder and  *)
(* writes what a call writes.  LATE = TRUE: an encoder that takes set-ups     *)
(* while it is at work; Complete fails.                                       *)
EXTENDS Encoder
CONSTANTS NA, NB, LATE
VARIABLES s, out, cfgs
vars == <<s, out, cfgs>>
N == <<NA, NB>>
Parts(c, m) == [k \in 1..m |-> <<c, k - 1>>]
Whole(c) == <<<<c, "head">>>> \o Parts(c, IF c = "A" THEN NA ELSE NB) \o <<<<c, "end">>>>
Init == s = Fresh /\ out = <<>> /\ cfgs = {}
Write(c) == CASE c \in {"tA", "tB", "tN"} -> <<<<s.cfg, "head">>>>
              [] c = "e" -> Parts(s.cfg, NOf(N, s))
              [] c \in {"w0", "w1", "w2"} -> <<<<s.cfg, s.t>>>>
              [] c = "end" -> <<<<s.cfg, "end">>>>
              [] OTHER -> <<>>
Succeed(c) == /\ Verdict(N, s, c) # "no"
              /\ s' = After(N, s, c, TRUE) /\ out' = out \o Write(c) /\ cfgs' = cfgs \cup {s'.cfg}
Fail(c) == /\ Verdict(N, s, c) # "yes" /\ s' = After(N, s, c, FALSE) /\ UNCHANGED <<out, cfgs>>
Intrude(c) == /\ LATE /\ c \in {"sA", "sB"} /\ s.ph = "started"
              /\ s' = [s EXCEPT !.cfg = IF c = "sA" THEN "A" ELSE "B"] /\ UNCHANGED <<out, cfgs>>
Next == \E c \in Calls : Succeed(c) \/ Fail(c) \/ Intrude(c)
Spec == Init /\ [][Next]_vars
\* a finished encoder has written one whole file, an unstarted one nothing
Complete == /\ File(s) > 0 => out = Whole(s.cfg)
            /\ File(s) = 0 => out = <<>>
Typed == s.ph \in {"new", "ready", "started", "closed"} /\ s.t <= (IF s.cfg = "" THEN 0 ELSE NOf(N, s))
\* refused calls write nothing, closed encoders stay closed
Closed == [][s.ph = "closed" => s' = s /\ out' = out]_vars
=============================================================================
