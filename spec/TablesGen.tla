----------------------------- MODULE TablesGen ------------------------------
(* Channel definitions and component mappings, one by one: all small tables, *)
(* right and wrong.  A row is [kind, n, m, one, seed]: definitions of m      *)
(* entries for n channels, or mappings of m entries for n components and n   *)
(* columns; one of `one` tables is emitted.                                  *)
EXTENDS Num, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
Def(n) == (0..n) \X {0, 1, 65535} \X ((0..(n + 1)) \cup {65535})
Perm(n) == (0..(n - 1)) \X {0, 1} \X ((0..n) \cup {65535})
Map(n) == (0..n) \X (0..2) \X (0..n)
Entries(o) == CASE o.kind = "def" -> Def(o.n) [] o.kind = "perm" -> Perm(o.n) [] OTHER -> Map(o.n)
Bytes(o, x) == IF o.kind = "map" THEN W16(x[1]) \o <<x[2], x[3]>> ELSE W16(x[1]) \o W16(x[2]) \o W16(x[3])

VARIABLES i, q, h
Init == i \in 1..Len(Obs) /\ q = <<>> /\ h = 0
Next == /\ Len(q) < Obs[i].m /\ UNCHANGED i
        /\ \E x \in Entries(Obs[i]) :
             /\ (Obs[i].kind = "perm" => \A k \in 1..Len(q) : q[k][1] # x[1])
             /\ h' = (h * 31 + x[1] * 7 + x[2] * 3 + x[3]) % 9973
             /\ q' = Append(q, x)
             /\ (Len(q') = Obs[i].m => (h' + Obs[i].seed) % Obs[i].one = 0)
Emit == Len(q') = Obs[i].m => PrintT("TAB " \o ToJson([i |-> i, b |-> (IF Obs[i].kind = "map" THEN <<>> ELSE W16(Len(q'))) \o FlatMap(LAMBDA x : Bytes(Obs[i], x), q')]))
Spec == Init /\ [][Next]_<<i, q, h>>
=============================================================================
