------------------------------- MODULE Layers -------------------------------
(* Quality layers.  Row: [layers, lossless, src, seen].  Each element of seen*)
(* is [k, way, img, ref]: img is what decoding with a limit of k layers gave *)
(* (k = 0: no limit) through access way (0: the whole image), and ref is a   *)
(* sequence of [n, img]: the images the specification's codestream with only *)
(* the first n layers gave through the same access without a limit.          *)
EXTENDS RoundTrip

Kept(k, n) == IF k = 0 \/ k > n THEN n ELSE k
Agree(r) ==
  \A j \in 1..Len(r.seen) :
    LET s == r.seen[j]
        q == SelectSeq(s.ref, LAMBDA x : x.n = Kept(s.k, r.layers))
    IN /\ Len(q) = 1
       /\ s.img = q[1].img
       /\ s.way = 0 => s.img.ok
       /\ (r.lossless /\ s.way = 0 /\ Kept(s.k, r.layers) = r.layers) => SameImage([src |-> r.src, dst |-> s.img])

LNext == /\ st = "todo" /\ UNCHANGED i
         /\ IF Agree(Obs[i]) THEN st' = "ok" /\ PrintT(<<"ACCEPT", i>>) ELSE st' = "bad"
LSpec == Init /\ [][LNext]_<<i, st>>
=============================================================================
