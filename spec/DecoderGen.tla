----------------------------- MODULE DecoderGen -----------------------------
(* Histories for the real decoder, from the state machine of Decoder.        *)
(* Row: [siz, nl, mct, calls, tails, depth]: a codestream, the calls that may*)
(* be made and the continuations that show what state the codec is in.       *)
(* TLC explores the machine breadth first with the history hidden from the   *)
(* fingerprint, so every state is reached by a shortest history; every call  *)
(* is then made in every state, followed by every continuation.              *)
EXTENDS Decoder, IOUtils
Ks == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, m, hist, step

\* A call with the arguments that depend on the state
Made(K, q) == IF q.op = "dtd" THEN q @@ [t |-> m.next + q.plus, n |-> IF m.next < NumTiles(K.siz) /\ m.red <= K.nl THEN TileBytes(K, Cur(K, m), m.red, m) + q.more ELSE q.more] ELSE q

Init == i \in 1..Len(Ks) /\ m = New /\ hist = <<>> /\ step = 0
Next ==
  LET K == Ks[i] @@ [order |-> InTileOrder(Ks[i].siz)]
  IN /\ Len(hist) < K.depth
     /\ \E k \in 1..Len(K.calls) :
          LET c == Made(K, K.calls[k])
              e == Outcome(K, m, c)
          IN \E ok \in (CASE e = "yes" -> {TRUE} [] e = "no" -> {FALSE} [] OTHER -> BOOLEAN) :
               m' = After(K, m, c, ok) /\ hist' = Append(hist, k) /\ step' = Len(hist) + 1 /\ UNCHANGED i
\* Every transition, whether or not it leads to a new state, is a history to replay
Emit == PrintT("SEQ " \o ToJson([i |-> i, h |-> hist']))
View == <<i, m>>
Spec == Init /\ [][Next]_<<i, m, hist, step>>

\* Sanity of the machine itself
Sane == /\ m.ph \in {"new", "head", "again", "over", "rand", "loop", "pend", "ended", "bad", "wild"}
        /\ m.next <= NumTiles(Ks[i].siz)
        /\ (m.ph = "pend" => m.next < NumTiles(Ks[i].siz))
        /\ (m.ph \in {"new", "bad"} => m.comps = <<>> /\ m.next = 0)
        /\ (m.ph \in {"head", "again", "over", "rand", "loop", "pend"} => m.red <= Ks[i].nl)
=============================================================================
