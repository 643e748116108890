------------------------------- MODULE Boxes --------------------------------
(* ITU-T T.800 Annex I: the JP2 file.  Bytes are taken apart into boxes;     *)
(* Verdict says whether a reader must take the file ("ok"), must refuse it   *)
(* ("no"), or is left free ("may": odd in a way a lenient reader bears);     *)
(* Channels says what image its palette, component mapping and channel       *)
(* definitions make of the components of the codestream.                     *)
EXTENDS Num, FiniteSets

JPSIG == <<106, 80, 32, 32>>
FTYP == <<102, 116, 121, 112>>
JP2H == <<106, 112, 50, 104>>
IHDR == <<105, 104, 100, 114>>
BPCC == <<98, 112, 99, 99>>
COLR == <<99, 111, 108, 114>>
PCLR == <<112, 99, 108, 114>>
CMAP == <<99, 109, 97, 112>>
CDEF == <<99, 100, 101, 102>>
JP2C == <<106, 112, 50, 99>>
BRAND == <<106, 112, 50, 32>>
NOBOX == <<0>>
ImageBoxes == {IHDR, BPCC, COLR, PCLR, CMAP, CDEF}

\* --- boxes: [t, c, e, form] type, offsets of content and end; bad # "" if there is no such box
None(why) == [t |-> <<>>, c |-> 0, e |-> 0, form |-> "", bad |-> why]
BoxAt(s, p, end, top) ==
  IF end - p < 8 THEN None("cut header")
  ELSE LET l == U32(s, p)
           t == Cut(s, p + 4, 4)
           ll == U32(s, p + 12)
       IN CASE l = 0 -> IF top THEN [t |-> t, c |-> p + 8, e |-> end, form |-> "end", bad |-> ""] ELSE None("open end inside a box")
            [] l = 1 -> IF end - p < 16 THEN None("cut header")
                        ELSE IF U32(s, p + 8) # 0 \/ ll = Huge THEN [t |-> t, c |-> p + 16, e |-> end, form |-> "xl", bad |-> "overruns"]
                        ELSE IF ll < 16 THEN None("too short")
                        ELSE IF ll > end - p THEN [t |-> t, c |-> p + 16, e |-> end, form |-> "xl", bad |-> "overruns"]
                        ELSE [t |-> t, c |-> p + 16, e |-> p + ll, form |-> "xl", bad |-> ""]
            [] l \in 2..7 -> None("too short")
            [] OTHER -> IF l = Huge \/ l > end - p THEN [t |-> t, c |-> p + 8, e |-> end, form |-> "short", bad |-> "overruns"]
                        ELSE [t |-> t, c |-> p + 8, e |-> p + l, form |-> "short", bad |-> ""]

\* the boxes from p on, up to the first one of type stop (with it): [b, bad]
RECURSIVE BoxesFrom(_, _, _, _, _)
BoxesFrom(s, p, end, top, stop) ==
  IF p = end THEN [b |-> <<>>, bad |-> {}]
  ELSE LET x == BoxAt(s, p, end, top)
       IN IF x.bad # "" /\ ~(x.t = stop /\ x.bad = "overruns") THEN [b |-> <<>>, bad |-> {x.bad}]
          ELSE IF x.t = stop THEN [b |-> <<x>>, bad |-> {}]
          ELSE LET r == BoxesFrom(s, x.e, end, top, stop) IN [r EXCEPT !.b = <<x>> \o @]

Body(s, x) == Cut(s, x.c, x.e - x.c)
OfType(b, t) == SelectSeq(b, LAMBDA x : x.t = t)

\* --- palette [ok, ne, size, sign, at]: entry e (from 0) of column c (from 1)
Wide(k) == (k + 7) \div 8
Palette(d) ==
  IF Len(d) < 3 \/ U16(d, 0) \notin 1..1024 \/ d[3] = 0 \/ Len(d) < 3 + d[3] THEN [ok |-> FALSE]
  ELSE LET ne == U16(d, 0)
           size == [c \in 1..d[3] |-> (d[3 + c] % 128) + 1]
           off == [c \in 1..(d[3] + 1) |-> SumSeq([j \in 1..(c - 1) |-> Wide(size[j])])]
           row == off[d[3] + 1]
       IN IF (\E c \in 1..d[3] : size[c] > 32) \/ Len(d) < 3 + d[3] + ne * row THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, ne |-> ne, size |-> size, sign |-> [c \in 1..d[3] |-> d[3 + c] \div 128],
                off |-> off, row |-> row, o |-> 3 + d[3], d |-> d, spare |-> Len(d) # 3 + d[3] + ne * row]
Raw(P, e, c) == FoldLeft(LAMBDA a, k : a * 256 + P.d[P.o + e * P.row + P.off[c] + k], 0, Upto(1, Wide(P.size[c])))
\* a number of size bits, two's complement if signed
Entry(P, e, c) ==
  LET v == Raw(P, e, c)
      h == 2^(P.size[c] - 1)
  IN IF P.sign[c] = 1 /\ v >= h THEN (v - h) - h ELSE v
Straying(P) == \E c \in 1..Len(P.size) : P.size[c] % 8 # 0 /\ \E e \in 0..(P.ne - 1) : P.d[P.o + e * P.row + P.off[c] + 1] >= 2^(P.size[c] % 8)

\* --- component mapping, channel definitions
Mapping(d) == IF Len(d) < 4 \/ Len(d) % 4 # 0 THEN <<>>
              ELSE [k \in 1..(Len(d) \div 4) |-> [cmp |-> U16(d, 4 * k - 4), mtyp |-> d[4 * k - 1], pcol |-> d[4 * k]]]
Definitions(d) == IF Len(d) < 8 \/ U16(d, 0) = 0 \/ Len(d) < 2 + 6 * U16(d, 0) THEN <<>>
                  ELSE [k \in 1..U16(d, 0) |-> [cn |-> U16(d, 6 * k - 4), typ |-> U16(d, 6 * k - 2), asoc |-> U16(d, 6 * k)]]

MapFaults(P, m, n) ==      \* n components in the codestream
  (IF \E k \in 1..Len(m) : m[k].cmp >= n THEN {"cmap: no such component"} ELSE {})
  \cup (IF \E k \in 1..Len(m) : m[k].mtyp > 1 THEN {"cmap: unknown kind"} ELSE {})
  \cup (IF \E k \in 1..Len(m) : m[k].mtyp = 1 /\ m[k].pcol >= Len(P.size) THEN {"cmap: no such column"} ELSE {})
  \cup (IF \E k \in 1..Len(m) : m[k].mtyp = 0 /\ m[k].pcol # 0 THEN {"cmap: column of a direct channel"} ELSE {})
DefFaults(f, n) ==         \* n channels
  (IF \E k \in 1..Len(f) : f[k].cn >= n THEN {"cdef: no such channel"} ELSE {})
  \cup (IF \E k \in 1..Len(f) : f[k].asoc \notin {0, 65535} /\ f[k].asoc > n THEN {"cdef: no such colour"} ELSE {})
  \cup (IF \E c \in 0..(n - 1) : \A k \in 1..Len(f) : f[k].cn # c THEN {"cdef: incomplete"} ELSE {})
  \cup (IF \E j, k \in 1..Len(f) : j < k /\ f[j].cn = f[k].cn /\ f[j] # f[k] THEN {"cdef: channel defined twice"} ELSE {})
  \cup (IF \E j, k \in 1..Len(f) : j < k /\ f[j].cn # f[k].cn /\ f[j].typ = 0 /\ f[k].typ = 0 /\ f[j].asoc = f[k].asoc /\ f[j].asoc \notin {0, 65535}
        THEN {"cdef: two channels for a colour"} ELSE {})

\* --- the file.  S is the SIZ of the codestream: [w, h, n, bits] (bits as BPCC has them)
\* Look takes it apart once; everything else follows from the record
Look(s) ==
  LET top == BoxesFrom(s, 0, Len(s), TRUE, JP2C)
      b == top.b
      hs == OfType(b, JP2H)
      h == IF hs = <<>> THEN [b |-> <<>>, bad |-> {}] ELSE BoxesFrom(s, hs[1].c, hs[1].e, FALSE, NOBOX)
      One(t) == LET q == OfType(h.b, t) IN IF q = <<>> THEN <<>> ELSE Body(s, q[1])
      N(t) == Len(OfType(h.b, t))
      colrs == SelectSeq(OfType(h.b, COLR), LAMBDA x : x.e - x.c >= 1 /\ s[x.c + 1] \in {1, 2})
  IN [b |-> b, bad |-> top.bad, hs |-> Len(hs), h |-> h.b, hbad |-> h.bad,
      ihdr |-> One(IHDR), bpcc |-> One(BPCC), pclr |-> One(PCLR), cmap |-> One(CMAP), cdef |-> One(CDEF),
      colr |-> IF colrs = <<>> THEN <<>> ELSE Body(s, colrs[1]),
      n |-> [ihdr |-> N(IHDR), bpcc |-> N(BPCC), pclr |-> N(PCLR), cmap |-> N(CMAP), cdef |-> N(CDEF), colr |-> N(COLR)],
      jp2c |-> IF b # <<>> /\ b[Len(b)].t = JP2C THEN b[Len(b)] ELSE None("")]

FileFaults(s, L) ==
  LET b == L.b
  IN L.bad \cup L.hbad
     \cup (IF b = <<>> \/ b[1].t # JPSIG \/ (b # <<>> /\ Body(s, b[1]) # <<13, 10, 135, 10>>) THEN {"signature"} ELSE {})
     \cup (IF Len(b) < 2 \/ b[2].t # FTYP \/ (Len(b) >= 2 /\ (b[2].e - b[2].c < 8 \/ (b[2].e - b[2].c) % 4 # 0)) THEN {"file type"} ELSE {})
     \cup (IF \E k \in 2..Len(b) : b[k].t = JPSIG THEN {"second signature"} ELSE {})
     \cup (IF \E k \in 3..Len(b) : b[k].t = FTYP THEN {"second file type"} ELSE {})
     \cup (IF L.jp2c.t # JP2C THEN {"no codestream"} ELSE {})
     \cup (IF L.hs = 0 THEN {"no header"} ELSE {})

HeaderFaults(L, S) ==
  IF L.hs = 0 THEN {} ELSE
  (IF L.n.ihdr = 0 THEN {"no image header"}
   ELSE IF Len(L.ihdr) # 14 THEN {"size of image header"}
   ELSE IF U32(L.ihdr, 0) # S.h \/ U32(L.ihdr, 4) # S.w THEN {"image size"}
   ELSE IF U16(L.ihdr, 8) = 0 THEN {"no components"} ELSE {})
  \cup (IF L.n.bpcc > 0 /\ L.h[1].t = IHDR /\ Len(L.ihdr) = 14 /\ Len(L.bpcc) # U16(L.ihdr, 8) THEN {"size of bits per component"} ELSE {})

\* channels before channel definitions: faults and their number
ColourFaults(L, S) ==
  LET P == Palette(L.pclr)
      m == Mapping(L.cmap)
      f == Definitions(L.cdef)
      pal == L.n.pclr > 0 /\ L.n.cmap > 0
      n == IF pal THEN Len(m) ELSE S.n
  IN (IF L.n.pclr > 0 /\ ~P.ok THEN {"pclr"} ELSE {})
     \cup (IF L.n.cmap > 0 /\ m = <<>> THEN {"cmap"} ELSE {})
     \cup (IF L.n.cdef > 0 /\ f = <<>> THEN {"cdef"} ELSE {})
     \cup (IF L.n.cmap > 0 /\ L.n.pclr = 0 THEN {"cmap without pclr"} ELSE {})
     \cup (IF L.n.pclr > 1 \/ L.n.cmap > 1 \/ L.n.cdef > 1 THEN {"twice"} ELSE {})
     \cup (IF pal /\ P.ok THEN MapFaults(P, m, S.n) ELSE {})
     \cup (IF L.n.cdef > 0 /\ ~(L.n.pclr > 0 /\ L.n.cmap = 0) THEN DefFaults(f, n) ELSE {})

Outside(L) == \E k \in 1..Len(L.b) : L.b[k].t \in ImageBoxes

\* a lenient reader may take these, a strict one need not
Oddities(s, L, S, cs) ==
  LET nc == IF Len(L.ihdr) = 14 THEN U16(L.ihdr, 8) ELSE 0
      bpc == IF Len(L.ihdr) = 14 THEN L.ihdr[11] ELSE 0
      P == Palette(L.pclr)
      m == Mapping(L.cmap)
  IN (IF Outside(L) THEN {"image box outside the header"} ELSE {})
     \cup (IF L.hs > 1 THEN {"second header"} ELSE {})
     \cup (IF L.n.ihdr > 1 \/ L.n.bpcc > 1 THEN {"second image header"} ELSE {})
     \cup (IF L.h # <<>> /\ L.h[1].t # IHDR THEN {"image header not first"} ELSE {})
     \cup (IF nc # S.n THEN {"number of components"} ELSE {})
     \cup (IF (bpc = 255) # (L.n.bpcc > 0) \/ (bpc # 255 /\ \E c \in 1..S.n : S.bits[c] # bpc)
              \/ (L.n.bpcc > 0 /\ L.bpcc # S.bits) THEN {"bits per component"} ELSE {})
     \cup (IF Len(L.ihdr) = 14 /\ L.ihdr[12] # 7 THEN {"compression type"} ELSE {})
     \cup (IF Len(L.ihdr) = 14 /\ (L.ihdr[13] > 1 \/ L.ihdr[14] > 1) THEN {"flags of the image header"} ELSE {})
     \cup (IF L.colr = <<>> \/ Len(L.colr) < 3 \/ (L.colr[1] = 1 /\ Len(L.colr) # 7) \/ (L.colr[1] = 2 /\ Len(L.colr) = 3)
              \/ \E k \in 1..Len(L.h) : L.h[k].t = COLR /\ L.h[k].e - L.h[k].c < 3 THEN {"colour specification"} ELSE {})
     \cup (IF Len(L.b) >= 2 /\ \A k \in 1..((L.b[2].e - L.b[2].c) \div 4) : k = 2 \/ Cut(s, L.b[2].c + 4 * k - 4, 4) # BRAND THEN {"not compatible"} ELSE {})
     \cup (IF L.n.pclr > 0 /\ L.n.cmap = 0 THEN {"pclr without cmap"} ELSE {})
     \cup (IF L.n.pclr > 0 /\ P.ok /\ (P.spare \/ (\E c \in 1..Len(P.size) : P.size[c] > 31) \/ Straying(P)) THEN {"entries of the palette"} ELSE {})
     \cup (IF L.n.cdef > 0 /\ Definitions(L.cdef) # <<>> /\ Len(L.cdef) # 2 + 6 * U16(L.cdef, 0) THEN {"bytes behind cdef"} ELSE {})
     \cup (IF L.n.cdef > 0 /\ \E k \in 1..Len(Definitions(L.cdef)) : LET d == Definitions(L.cdef)[k] IN (d.typ = 0 /\ d.asoc \in {0, 65535})
              \/ d.typ \notin {0, 1, 2, 65535} THEN {"colour without a number"} ELSE {})
     \cup (IF L.n.cdef > 0 /\ \E j, k \in 1..Len(Definitions(L.cdef)) : j < k /\ Definitions(L.cdef)[j].cn = Definitions(L.cdef)[k].cn THEN {"defined twice alike"} ELSE {})
     \cup (IF L.n.pclr > 0 /\ L.n.cmap > 0 /\ P.ok /\ S.n = 1 /\ \E k \in 1..Len(m) : m[k].mtyp = 0 THEN {"one component used directly"} ELSE {})
     \cup (IF L.jp2c.e - L.jp2c.c # cs \/ L.jp2c.bad # "" THEN {"length of the codestream"} ELSE {})

\* boxes after the codestream must be whole and of a kind that may stand there
TailFaults(s, L) ==
  LET r == BoxesFrom(s, L.jp2c.e, Len(s), TRUE, NOBOX)
  IN r.bad \cup {"kind" : x \in {k \in 1..Len(r.b) : r.b[k].t \in ImageBoxes \cup {JPSIG, FTYP, JP2H, JP2C}}}

\* o: offset of the codestream in the file, cs its length
\* (a lenient reader may take image boxes behind the header into account: colours are not judged then)
Faults(s, L, S, o) == FileFaults(s, L) \cup HeaderFaults(L, S) \cup (IF Outside(L) THEN {} ELSE ColourFaults(L, S))
                      \cup (IF L.jp2c.t = JP2C /\ L.jp2c.c # o THEN {"no codestream in its box"} ELSE {})
Verdict(s, L, S, o, cs) == IF Faults(s, L, S, o) # {} THEN "no" ELSE IF Oddities(s, L, S, cs) # {} THEN "may" ELSE "ok"

\* --- what comes out.  X: components of the codestream [dx, dy, w, h, prec, sgnd, d]
Look1(P, x, c) == LET top == P.ne - 1
                      tab == TLCEval([e \in 0..top |-> Entry(P, e, c)])
                  IN [j \in 1..Len(x.d) |-> tab[IF x.d[j] < 0 THEN 0 ELSE IF x.d[j] > top THEN top ELSE x.d[j]]]
Mapped(L, X) ==
  IF L.n.pclr = 0 \/ L.n.cmap = 0 THEN X
  ELSE LET P == Palette(L.pclr)
           m == Mapping(L.cmap)
       IN [k \in 1..Len(m) |->
             LET x == X[m[k].cmp + 1]
                 c == m[k].pcol + 1
             IN IF m[k].mtyp = 0 THEN x
                ELSE [x EXCEPT !.prec = P.size[c], !.sgnd = P.sign[c], !.d = Look1(P, x, c)]]
\* Y is the outcome of channels M under definitions f: colour a comes a-th, everything comes once, marked
Placed(f, M, Y) ==
  LET n == Len(M)
      D == TLCEval([c \in 1..n |-> f[CHOOSE k \in 1..Len(f) : f[k].cn = c - 1]])
      W == TLCEval([c \in 1..n |-> [M[c] EXCEPT !.alpha = D[c].typ]])
      colours == {c \in 1..n : D[c].typ = 0 /\ D[c].asoc \notin {0, 65535}}
      rest == (1..n) \ colours
      places == (1..n) \ {D[c].asoc : c \in colours}
  IN Len(Y) = n /\ (\A c \in colours : Y[D[c].asoc] = W[c])
     /\ \A c \in rest : Cardinality({k \in places : Y[k] = W[c]}) >= Cardinality({k \in rest : W[k] = W[c]})
Comes(L, X, Y) ==
  LET M == TLCEval(Mapped(L, X))
  IN IF L.n.cdef = 0 THEN Y = M ELSE Placed(Definitions(L.cdef), M, Y)

\* --- colour space (numbers of the interface) and profile
Space(L) == IF L.colr = <<>> \/ L.colr[1] # 1 \/ Len(L.colr) < 7 THEN -1
            ELSE LET e == U32(L.colr, 3)
                 IN CASE e = 16 -> 1 [] e = 17 -> 2 [] e = 18 -> 3 [] e = 24 -> 4 [] e = 12 -> 5 [] OTHER -> -1
Profile(L) == IF L.colr = <<>> \/ L.colr[1] # 2 \/ Len(L.colr) < 3 THEN <<>> ELSE Cut(L.colr, 3, Len(L.colr) - 3)
=============================================================================
