---------------------------- MODULE BoxesWritten ----------------------------
(* The boxes the encoder puts around a codestream.  A row is                 *)
(*   [f, w, h, bits, cs, icc, alpha]  the file; of the image: size, bits as  *)
(* BPCC has them, colour space, profile, and the alpha marks of components.  *)
EXTENDS Boxes, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)

Colours(cs) == IF cs = 2 THEN 1 ELSE 3
Fault(r, L) ==
  LET n == Len(r.bits)
      S == [w |-> r.w, h |-> r.h, n |-> n, bits |-> r.bits]
      f == Definitions(L.cdef)
      A == {c \in 1..n : r.alpha[c] # 0}
      must == Cardinality(A) = 1 /\ r.icc = <<>> /\ r.cs \in {1, 2, 3} /\ \A c \in A : c > Colours(r.cs)
      e == Len(r.f)
  IN Faults(r.f, L, S, L.jp2c.c)
     \cup Oddities(r.f, L, S, e - L.jp2c.c)
     \cup (IF L.jp2c.t # JP2C \/ L.jp2c.e # e THEN {"codestream box does not end the file"}
           ELSE IF U16(r.f, L.jp2c.c) # 65359 \/ U16(r.f, e - 2) # 65497 THEN {"codestream cut"} ELSE {})
     \cup (IF Len(L.b) < 2 \/ Cut(r.f, L.b[2].c, 8) # BRAND \o <<0, 0, 0, 0>> THEN {"brand"} ELSE {})
     \cup (IF Profile(L) # r.icc THEN {"profile"} ELSE {})
     \cup (IF r.icc = <<>> /\ r.cs \in {1, 2, 3} /\ Space(L) # r.cs THEN {"colour space"} ELSE {})
     \cup (IF r.cs \notin {1, 2, 3} /\ Space(L) \notin {-1, r.cs} THEN {"another colour space"} ELSE {})
     \cup (IF L.n.pclr + L.n.cmap > 0 THEN {"palette"} ELSE {})
     \cup (IF must /\ L.n.cdef = 0 THEN {"no channel definitions"} ELSE {})
     \cup (IF L.n.cdef > 0 /\ \E k \in 1..Len(f) : f[k].cn < n /\ (r.alpha[f[k].cn + 1] # 0) # (f[k].typ \in {1, 2}) THEN {"alpha"} ELSE {})
     \cup (IF L.n.cdef > 0 /\ \E k \in 1..Len(f) : f[k].typ = 0 /\ f[k].asoc # f[k].cn + 1 THEN {"colours"} ELSE {})
     \cup (IF must /\ L.n.cdef > 0 /\ Cardinality({k \in 1..Len(f) : f[k].typ = 0}) # Colours(r.cs) THEN {"number of colours"} ELSE {})

VARIABLES i, k
Init == i \in 1..Len(Obs) /\ k = 0
Next == /\ k = 0 /\ UNCHANGED i
        /\ \E L \in {Look(Obs[i].f)} : \E f \in {Fault(Obs[i], L)} :
              IF f = {} THEN k' = 1 /\ PrintT(<<"ACCEPT", i>>) ELSE k' = -1 /\ PrintT("WHY " \o ToJson([i |-> i, f |-> f]))
Spec == Init /\ [][Next]_<<i, k>>
=============================================================================
