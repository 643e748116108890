------------------------------ MODULE BoxesGen ------------------------------
(* Files a few steps away from a good one: boxes put in, dropped, doubled,   *)
(* swapped, renamed, said in another form, with other lengths and contents.  *)
(* The input is a tree [t, c, k, f, d]: type, content or children, form      *)
(* ("s", "x" extended, "e" to the end), and what the length is wrong by.     *)
EXTENDS Boxes, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)

RECURSIVE Ser(_)
Content(x) == IF x.k = <<>> THEN x.c ELSE FlatMap(Ser, x.k)
Ser(x) == LET b == Content(x)
              n == Max2(0, Len(b) + (IF x.f = "x" THEN 16 ELSE 8) + x.d)
          IN CASE x.f = "e" -> W32(0) \o x.t \o b
               [] x.f = "x" -> W32(1) \o x.t \o W32(0) \o W32(n) \o b
               [] x.f = "h" -> W32(1) \o x.t \o W32(1) \o W32(n) \o b
               [] OTHER -> W32(n) \o x.t \o b
File(T) == FlatMap(Ser, T)

Node(t, c) == [t |-> t, c |-> c, k |-> <<>>, f |-> "s", d |-> 0]
Extra == <<Node(<<120, 109, 108, 32>>, <<60, 62>>), Node(<<102, 114, 101, 101>>, <<>>),
           [Node(<<255, 1, 2, 3>>, <<0, 0, 0, 0, 106, 112, 50, 99, 255, 79>>) EXCEPT !.f = "x"],
           Node(<<114, 101, 115, 32>>, <<0, 0, 0, 18, 114, 101, 115, 99, 0, 1, 0, 1, 0, 1, 0, 1, 0, 0>>),
           [Node(<<120, 109, 108, 32>>, <<>>) EXCEPT !.f = "e"], [Node(<<120, 109, 108, 32>>, <<>>) EXCEPT !.f = "h"]>>
Put(Q, p, x) == SubSeq(Q, 1, p - 1) \o <<x>> \o SubSeq(Q, p, Len(Q))
Off(Q, p) == SubSeq(Q, 1, p - 1) \o SubSeq(Q, p + 1, Len(Q))
Edits(x) == IF x.k # <<>> \/ x.t = JP2C THEN <<>>
            ELSE (IF x.c = <<>> THEN <<>> ELSE <<[x EXCEPT !.c = SubSeq(x.c, 1, Len(x.c) - 1)]>>)
                 \o <<[x EXCEPT !.c = Append(x.c, 0)]>>
                 \o FlatMap(LAMBDA p : <<[x EXCEPT !.c[p] = (x.c[p] + 1) % 256], [x EXCEPT !.c[p] = (x.c[p] + 255) % 256], [x EXCEPT !.c[p] = (x.c[p] + 128) % 256]>>,
                            Upto(1, Len(x.c)))
Alter(x) == <<[x EXCEPT !.f = "x"], [x EXCEPT !.f = "e"], [x EXCEPT !.f = "h"], [x EXCEPT !.t[4] = (x.t[4] + 1) % 256]>>
            \o [q \in 1..7 |-> [x EXCEPT !.d = <<1, -1, 4, -4, -9, 100, 1000000>>[q]]] \o Edits(x)
Results(Q) == FlatMap(LAMBDA p : [e \in 1..Len(Extra) |-> Put(Q, p, Extra[e])], Upto(1, Len(Q) + 1))
              \o FlatMap(LAMBDA p : <<Off(Q, p), Put(Q, p, Q[p]), Append(Off(Q, p), Q[p]), <<Q[p]>> \o Off(Q, p)>>, Upto(1, Len(Q)))
              \o FlatMap(LAMBDA p : <<[Q EXCEPT ![p] = Q[p + 1], ![p + 1] = Q[p]]>>, Upto(1, Len(Q) - 1))
              \o FlatMap(LAMBDA p : LET a == Alter(Q[p]) IN [j \in 1..Len(a) |-> [Q EXCEPT ![p] = a[j]]], Upto(1, Len(Q)))
\* a box of the header moved out of it, and the other way
Moved(T, h) == FlatMap(LAMBDA p : [q \in 1..Len(T) |-> Put([T EXCEPT ![h].k = Off(T[h].k, p)], q, T[h].k[p])], Upto(1, Len(T[h].k)))
Moves(T) == Results(T)
            \o FlatMap(LAMBDA h : IF T[h].k = <<>> THEN <<>>
                                  ELSE LET r == Results(T[h].k) IN [j \in 1..Len(r) |-> [T EXCEPT ![h].k = r[j]]] \o Moved(T, h), Upto(1, Len(T)))
\* files put together anew from the boxes of the file and a few others, every sequence up to a length
Stock(Q) == Q \o <<Extra[1]>> \o FlatMap(LAMBDA h : IF Q[h].k = <<>> THEN <<>> ELSE <<Q[h].k[1]>>, Upto(1, Len(Q)))
Longer(Q, st) == [n \in 1..Len(st) |-> Append(Q, st[n])]

VARIABLES i, T, d, j
vars == <<i, T, d, j>>
View == <<i, T, d>>
Init == i \in 1..Len(Obs) /\ T = (IF Obs[i].whole = 1 THEN <<>> ELSE Obs[i].tree) /\ d = 0 /\ j = 0
Next == /\ d < Obs[i].depth /\ d' = d + 1 /\ UNCHANGED i
        /\ \E M \in {IF Obs[i].whole = 1 THEN Longer(T, Stock(Obs[i].tree)) ELSE Moves(T)} : \E n \in 1..Len(M) :
             /\ d = 0 \/ (j * 31 + n * 17 + Obs[i].seed) % Obs[i].one = 0
             /\ T' = M[n] /\ j' = n
Emit == PrintT("FILE " \o ToJson([i |-> i, d |-> d', b |-> File(T')]))
\* the file itself is good, and stays good when boxes are only said differently
Good(U) == LET s == File(U)
               o == Len(s) - Obs[i].cs
           IN \A L \in {Look(s)} : Verdict(s, L, Obs[i].S, o, Obs[i].cs) = "ok"
Sane == (d = 0 /\ Obs[i].whole = 0) =>
          /\ Good(T)
          /\ \A p \in 1..Len(T) : Good([T EXCEPT ![p].f = "x"])
          /\ Good([T EXCEPT ![Len(T)].f = "e"])
          /\ \A p \in 3..Len(T) : \A e \in 1..4 : Good(Put(T, p, Extra[e]))
Spec == Init /\ [][Next]_vars
=============================================================================
