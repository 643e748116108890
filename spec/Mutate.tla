------------------------------- MODULE Mutate -------------------------------
(* Other ways to say the same, and ways to say it wrongly: operations on the *)
(* marker segments of a codestream.  An operation is                         *)
(*   [k, h, a, b, v, x]  kind; header (0 main, else a tile-part); segment;   *)
(*                       position; number; bytes                             *)
EXTENDS Codestream

Segm(m, body) == W16(m) \o W16(Len(body) + 2) \o body
Mark(g) == g[1] * 256 + g[2]
Harmless == {COM, TLM, PLT, PLM, CRG}

Tree(s) ==
  LET P == Parse(s)
      Bytes(g) == Cut(s, g.o, g.len + 2)
      Own(segs) == [k \in 1..Len(segs) |-> Bytes(segs[k])]
  IN [soc |-> TRUE, eoc |-> TRUE, same |-> TRUE, plain |-> \A k \in 1..Len(P.parts) : Of(P.parts[k].segs, COD) = <<>>, n |-> P.siz.n,
      heads |-> TLCEval(<<Own(P.main)>> \o [k \in 1..Len(P.parts) |-> Own(P.parts[k].segs)]),
      parts |-> TLCEval([k \in 1..Len(P.parts) |->
        [t |-> P.parts[k].tile, tp |-> P.parts[k].tp, tn |-> P.parts[k].tn, l |-> 10, d |-> 0, zero |-> FALSE, sod |-> TRUE,
         body |-> Cut(s, P.parts[k].body, P.parts[k].end - P.parts[k].body)]])]

Out(T) ==
  LET Flat(q) == FlatMap(LAMBDA g : g, q)
      Part(k) ==
        LET p == T.parts[k]
            h == Flat(T.heads[k + 1])
            size == 12 + Len(h) + (IF p.sod THEN 2 ELSE 0) + Len(p.body) + p.d
        IN W16(SOT) \o W16(p.l) \o W16(p.t) \o W32(IF p.zero THEN 0 ELSE Max2(0, size)) \o <<p.tp % 256, p.tn % 256>>
           \o h \o (IF p.sod THEN W16(SOD) ELSE <<>>) \o p.body
  IN (IF T.soc THEN W16(SOC) ELSE <<>>) \o Flat(T.heads[1]) \o FlatMap(Part, Upto(1, Len(T.parts)))
     \o (IF T.eoc THEN W16(EOC) ELSE <<>>)

Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Insert(q, k, x) == SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))      \* behind the first k

\* The same coding parameters, said in other places.  v = 1: for every component in the main header;
\* 2: for the tile; 3: for every component of the tile.  What they override is nonsense.
Explicit(T, v) ==
  LET main == T.heads[1]
      cod == SelectSeq(main, LAMBDA g : Mark(g) = COD)[1]
      qcd == SelectSeq(main, LAMBDA g : Mark(g) = QCD)[1]
      qccs == SelectSeq(main, LAMBDA g : Mark(g) = QCC)
      C(c) == IF T.n < 257 THEN <<c - 1>> ELSE W16(c - 1)
      w == IF T.n < 257 THEN 1 ELSE 2
      Has(c) == SelectSeq(qccs, LAMBDA g : SubSeq(g, 5, 4 + w) = C(c))
      sp == SubSeq(cod, 10, Len(cod))                       \* SPcod
      nl == (sp[1] + v) % 6
      fake == <<nl, 1, 2, IF sp[4] % 2 = 0 THEN 9 ELSE 0, 1>>
      \* what a COD also says (progression, layers, transform, SOP, EPH) stays
      fakeCod == Segm(COD, <<(cod[5] \div 2) * 2>> \o SubSeq(cod, 6, 9) \o fake)
      fakeQcd == Segm(QCD, <<32>> \o [k \in 1..(3 * nl + 1) |-> 72])
      cocs == [c \in 1..T.n |-> Segm(COC, C(c) \o <<cod[5] % 2>> \o sp)]
      fakeCocs == [c \in 1..T.n |-> Segm(COC, C(c) \o <<0>> \o fake)]
      quant == [c \in 1..T.n |-> IF Has(c) # <<>> THEN Has(c)[1] ELSE Segm(QCC, C(c) \o SubSeq(qcd, 5, Len(qcd)))]
      rest == SelectSeq(main, LAMBDA g : Mark(g) \notin {COD, QCD, QCC})
      \* a region of interest shift moves from the main header to the tile, overriding another
      rgns == SelectSeq(rest, LAMBDA g : Mark(g) = RGN)
      plain == [k \in 1..Len(rest) |-> IF Mark(rest[k]) = RGN THEN [rest[k] EXCEPT ![Len(rest[k])] = (@ + 3) % 8] ELSE rest[k]]
      tile == IF v = 2 THEN <<cod, qcd>> \o qccs \o rgns ELSE <<fakeCod, fakeQcd>> \o cocs \o quant \o rgns
      First(k) == T.parts[k].tp = 0
  IN IF v = 1 THEN [T EXCEPT !.heads[1] = <<rest[1], fakeCod, fakeQcd>> \o cocs \o quant \o Tail(rest)]
     ELSE [T EXCEPT !.heads = [k \in 1..Len(@) |->
             IF k = 1 THEN <<plain[1], fakeCod, fakeQcd>> \o (IF v = 2 THEN fakeCocs ELSE <<>>) \o Tail(plain)
             ELSE IF First(k - 1) THEN tile \o @[k] ELSE @[k]]]

Apply(T, m) ==
  LET hs == T.heads
      h == 1 + (m.h % Len(hs))
      q == hs[h]
      n == Len(q)
      a == 1 + (m.a % Max2(1, n))
      g == q[a]
      p == 1 + (m.h % Max2(1, Len(T.parts)))
      none == n = 0
      Not(X) == [X EXCEPT !.same = FALSE]
      L == g[3] * 256 + g[4] + m.v
      Relen(x, l) == <<x[1], x[2]>> \o W16(Max2(0, l)) \o SubSeq(x, 5, Len(x))
  IN CASE m.k = "ins" -> [T EXCEPT !.heads[h] = Insert(@, m.b % (n + 1), m.x)]
       [] m.k = "lie" -> Not([T EXCEPT !.heads[h] = Insert(@, m.b % (n + 1), m.x)])
       [] m.k = "explicit" -> IF {SIZ, COD, QCD} \subseteq {Mark(hs[1][k]) : k \in 1..Len(hs[1])} /\ T.plain /\ T.same
                              THEN [Explicit(T, m.v) EXCEPT !.plain = FALSE] ELSE T
       [] m.k = "nosoc" -> Not([T EXCEPT !.soc = FALSE])
       [] m.k = "noeoc" -> [T EXCEPT !.eoc = FALSE]
       [] m.k = "swap" -> IF Len(T.parts) < 2 THEN T
                          ELSE LET x == 1 + (m.a % Len(T.parts))
                                   y == 1 + (m.b % Len(T.parts))
                               IN [T EXCEPT !.parts[x] = T.parts[y], !.parts[y] = T.parts[x], !.heads[x + 1] = hs[y + 1],
                                            !.heads[y + 1] = hs[x + 1],
                                            !.same = @ /\ \A k \in 1..Len(hs[1]) : Mark(hs[1][k]) # PPM]
       [] m.k = "nopart" -> IF Len(T.parts) = 0 THEN T
                            ELSE Not([T EXCEPT !.parts = Without(@, p), !.heads = Without(@, p + 1)])
       [] m.k \in {"psot", "isot", "tpsot", "tnsot", "lsot", "nosod", "zero"} /\ Len(T.parts) > 0 ->
            (CASE m.k = "psot"  -> Not([T EXCEPT !.parts[p].d = m.v])
              [] m.k = "isot"  -> Not([T EXCEPT !.parts[p].t = m.a])
              [] m.k = "tpsot" -> Not([T EXCEPT !.parts[p].tp = m.a])
              [] m.k = "tnsot" -> Not([T EXCEPT !.parts[p].tn = m.a])
              [] m.k = "lsot"  -> Not([T EXCEPT !.parts[p].l = Max2(0, 10 + m.v)])
              [] m.k = "nosod" -> Not([T EXCEPT !.parts[p].sod = FALSE])
              [] m.k = "zero"  -> [T EXCEPT !.parts[Len(T.parts)].zero = TRUE])
       [] none \/ Len(T.parts) = 0 -> T
       [] Len(g) < 4 -> T                                    \* a marker without parameters
       [] m.k = "drop" -> [T EXCEPT !.heads[h] = Without(@, a), !.same = @ /\ Mark(g) \in Harmless]
       [] m.k = "move" -> [T EXCEPT !.heads[h] = Insert(Without(@, a), m.b % n, g)]
       [] m.k = "dup"  -> [T EXCEPT !.heads[h] = Insert(@, m.b % (n + 1), g), !.same = @ /\ Mark(g) \in {COM, CRG}]
       [] m.k = "copy" -> LET h2 == 1 + (m.v % Len(hs))        \* into another header
                          IN Not([T EXCEPT !.heads[h2] = Insert(@, m.b % (Len(hs[h2]) + 1), g)])
       [] m.k = "code" -> Not([T EXCEPT !.heads[h][a] = W16(m.v) \o SubSeq(g, 3, Len(g))])
       [] m.k = "len"  -> Not([T EXCEPT !.heads[h][a] = Relen(g, L)])
       [] m.k = "pad"  -> Not([T EXCEPT !.heads[h][a] = Relen(g, L) \o [k \in 1..Max2(0, m.v) |-> m.b % 256]])
       [] m.k = "cut"  -> Not([T EXCEPT !.heads[h][a] = LET y == SubSeq(g, 1, Max2(4, Len(g) - Max2(0, m.v))) IN Relen(y, Len(y) - 2)])
       [] OTHER -> T

RECURSIVE Mutant(_, _)
Mutant(T, ms) == IF ms = <<>> THEN T ELSE Mutant(Apply(T, Head(ms)), Tail(ms))
=============================================================================
