------------------------------- MODULE Reader -------------------------------
(* Reading a codestream, marker by marker: a state machine that accepts the  *)
(* well-ordered codestreams of ITU-T T.800 Annex A.  It advances over the    *)
(* bytes of S and ends in                                                    *)
(*   "good"   every marker where it may be, every length as its content says *)
(*   "bad"    a mandatory marker missing, a marker where it may not occur,   *)
(*            or a length that contradicts the content                       *)
(*   "soft"   against the letter of the standard, but in a way a decoder may *)
(*            tolerate (a missing EOC, repeated defaults, ...)               *)
EXTENDS Codestream

InSegments == {COD, COC, QCD, QCC, RGN, POC, COM}
MainOnly   == {SIZ, CAP, PLM, TLM, PPM, CRG, CPF, CBD}
TileOnly   == {PLT, PPT}
Delimiters == {SOC, SOT, SOD, EOC, SOP, EPH}
FirstOnly  == {COD, COC, QCD, QCC, RGN}          \* only in the first tile-part of a tile

Code(s, p) == IF p + 2 > Len(s) THEN -1 ELSE U16(s, p)
Bare(m) == m >= 65328 /\ m <= 65343              \* FF30..FF3F carry no length

\* Does length L of segment m at p fit what the segment says?  n components
\* nl decomposition levels of the codestream so far are not needed here.
Fits(s, p, m, L, n) ==
  LET w == IF n < 257 THEN 1 ELSE 2
      B(k) == Byte(s, p + k)
  IN CASE m = SIZ -> L >= 41 /\ L = 38 + 3 * U16(s, p + 38)
       [] m = COD -> L >= 12 /\ L = 12 + (IF B(4) % 2 = 1 THEN B(9) + 1 ELSE 0)
       [] m = COC -> L >= 8 + w /\ L = 8 + w + (IF B(4 + w) % 2 = 1 THEN B(5 + w) + 1 ELSE 0)
       [] m = QCD -> L >= 4 /\ (CASE B(4) % 32 = 0 -> TRUE [] B(4) % 32 = 1 -> L = 5 [] OTHER -> L >= 5 /\ L % 2 = 1)
       [] m = QCC -> L >= 4 + w /\ (CASE B(4 + w) % 32 = 0 -> TRUE [] B(4 + w) % 32 = 1 -> L = 5 + w
                                     [] OTHER -> L >= 5 + w /\ (L - w) % 2 = 1)
       [] m = RGN -> L = 4 + w
       [] m = POC -> L > 2 /\ (L - 2) % (5 + 2 * w) = 0
       [] m = TLM -> L >= 4 /\ LET st == (B(5) \div 16) % 4
                                   sp == (B(5) \div 64) % 2
                               IN st # 3 /\ (L - 4) % (st + 2 + 2 * sp) = 0
       [] m = PLM -> L >= 3
       [] m = PLT -> L >= 3
       [] m = PPM -> L >= 3
       [] m = PPT -> L >= 3
       [] m = CRG -> L = 2 + 4 * n
       [] m = COM -> L >= 2
       [] OTHER -> L >= 2

\* What makes a marker segment that fits doubtful, though not wrong
Odd(s, p, m, L, n) ==
  \/ m = COM /\ L < 5
  \/ m \in {PPM, PPT, PLT, PLM} /\ L < 4
  \/ m = TLM /\ L = 4
  \/ m \in {CAP, CPF, CBD, MCT, MCC, MCO}        \* other parts of the standard

\* Values of SIZ and COD that contradict themselves are left to other properties
SizeOk(s, p) ==
  /\ U16(s, p + 38) \in 1..16384
  /\ \A k \in {6, 10, 14, 18, 22, 26, 30, 34} : Byte(s, p + k) < 128
  /\ LET z == ReadSiz(s, p)
     IN /\ z.X > z.XO /\ z.Y > z.YO /\ z.XT > 0 /\ z.YT > 0
        /\ z.XTO <= z.XO /\ z.YTO <= z.YO /\ z.XTO + z.XT > z.XO /\ z.YTO + z.YT > z.YO
        /\ \A c \in 1..z.n : z.comps[c].dx > 0 /\ z.comps[c].dy > 0 /\ z.comps[c].prec <= 38

\* The state of the reader:
\*  at    position              st   "soc" "siz" "main" "sot" "tile" and the three ends
\*  seen  markers of the main header            siz  what SIZ said
\*  tile, first, mine   the tile-part being read: its tile, is it the first one, markers in it
\*  stop  where it ends (0: at the end of the codestream)
\*  next  tile-parts read a tile   tn   their announced number (0 unknown)   doubt
Start == [at |-> 0, st |-> "soc", seen |-> {}, siz |-> <<>>, tile |-> -1, first |-> FALSE, mine |-> {}, stop |-> 0,
          next |-> <<>>, tn |-> <<>>, doubt |-> FALSE, why |-> ""]

Bad(R, why) == [R EXCEPT !.st = "bad", !.why = why]
End(R) == [R EXCEPT !.st = IF R.doubt THEN "soft" ELSE "good"]

ReadSoc(s, R) == IF Code(s, 0) = SOC THEN [R EXCEPT !.at = 2, !.st = "siz"] ELSE Bad(R, "SOC")
Known == {SOC, SIZ, COD, COC, QCD, QCC, RGN, POC, COM, CAP, PLM, TLM, PPM, CRG, CPF, CBD, PLT, PPT, SOT, SOD, EOC, SOP, EPH,
          MCT, MCC, MCO}
ReadSizSeg(s, R) ==
  LET p == R.at
      m == Code(s, p)
  IN IF m >= 65280 /\ m \notin Known                  \* not the standard's second marker, but skipped all the same
  THEN IF Bare(m) THEN [R EXCEPT !.at = p + 2, !.doubt = TRUE]
       ELSE IF p + 4 > Len(s) \/ U16(s, p + 2) < 2 THEN Bad(R, "length")
       ELSE [R EXCEPT !.at = p + 2 + U16(s, p + 2), !.doubt = TRUE]
  ELSE IF m # SIZ \/ Len(s) < p + 42 THEN Bad(R, "SIZ second")
  ELSE LET L == U16(s, p + 2)
       IN IF ~Fits(s, p, SIZ, L, 0) \/ p + 2 + L > Len(s) THEN Bad(R, "SIZ length")
          ELSE IF ~SizeOk(s, p) THEN [R EXCEPT !.st = "soft"]
          ELSE LET z == ReadSiz(s, p)
               IN [R EXCEPT !.at = p + 2 + L, !.st = "main", !.siz = z,
                            !.next = [t \in 1..NumTiles(z) |-> 0], !.tn = [t \in 1..NumTiles(z) |-> 0]]
ReadMain(s, R) ==
  LET p == R.at
      m == Code(s, p)
  IN IF m < 65280 THEN Bad(R, "no marker")
     ELSE IF m = SOT THEN IF {COD, QCD} \subseteq R.seen THEN [R EXCEPT !.st = "sot"] ELSE Bad(R, "COD or QCD missing")
     ELSE IF Bare(m) THEN [R EXCEPT !.at = p + 2]
     ELSE IF m \in Delimiters \cup TileOnly \cup {SIZ} THEN Bad(R, "misplaced in the main header")
     ELSE IF p + 4 > Len(s) THEN Bad(R, "cut off")
     ELSE LET L == U16(s, p + 2)
          IN IF L < 2 \/ p + 2 + L > Len(s) THEN Bad(R, "length")
             ELSE IF ~Fits(s, p, m, L, R.siz.n) THEN Bad(R, "length and content")
             ELSE [R EXCEPT !.at = p + 2 + L, !.seen = @ \cup {m},
                            !.doubt = @ \/ Odd(s, p, m, L, R.siz.n) \/ (m \in {COD, QCD, POC} /\ m \in R.seen)]

\* Between tile-parts
ReadSot(s, R) ==
  LET p == R.at
      m == Code(s, p)
      all == \A t \in 1..Len(R.next) : R.next[t] > 0 /\ R.tn[t] \in {0, R.next[t]}
      \* When every tile has had the tile-parts announced, those that follow need not be read
      full == \A t \in 1..Len(R.next) : R.tn[t] # 0 /\ R.next[t] >= R.tn[t]
      Bad2(why) == IF full /\ (R.doubt \/ m = SOT) THEN End([R EXCEPT !.doubt = TRUE]) ELSE Bad(R, why)
  IN IF m = EOC THEN End([R EXCEPT !.doubt = @ \/ ~all])
     ELSE IF m = -1 /\ R.tile >= 0 THEN End([R EXCEPT !.doubt = TRUE])        \* no EOC
     ELSE IF m # SOT \/ p + 12 > Len(s) THEN Bad2("SOT expected")
     ELSE LET t == U16(s, p + 4) + 1
              ps == U32(s, p + 6)
              tp == Byte(s, p + 10)
              tn == Byte(s, p + 11)
          IN IF U16(s, p + 2) # 10 THEN Bad2("SOT length")
             ELSE IF t > Len(R.next) THEN Bad2("no such tile")
             ELSE IF Byte(s, p + 6) > 127 \/ (ps # 0 /\ ps < 14 /\ ps # 12) THEN Bad2("Psot")
             ELSE IF ps # 0 /\ p + ps > Len(s) THEN Bad2("Psot beyond the end")
             ELSE IF tp # R.next[t] THEN Bad2("tile-part out of order")
             ELSE [R EXCEPT !.at = p + 12, !.st = "tile", !.tile = t, !.first = tp = 0, !.mine = {},
                            !.stop = IF ps = 0 THEN 0 ELSE p + ps, !.next[t] = tp + 1,
                            !.tn[t] = IF tn = 0 THEN @ ELSE tn,
                            \* files with one tile-part more than announced are known, and read
                            !.doubt = @ \/ ps = 12 \/ (tn # 0 /\ tp >= tn) \/ (R.tn[t] # 0 /\ tp >= R.tn[t]) \/ (tn # 0 /\ R.tn[t] # 0 /\ tn # R.tn[t])]
ReadTilePart(s, R) ==
  LET p == R.at
      m == Code(s, p)
      stop == IF R.stop = 0 THEN Len(s) ELSE R.stop
  IN IF m < 65280 THEN Bad(R, "no marker in a tile-part header")
     ELSE IF m = SOD
     THEN IF p + 2 > stop /\ p <= stop THEN End([R EXCEPT !.doubt = TRUE])    \* known files leave SOD out of Psot, and are read
          ELSE IF p + 2 > stop THEN Bad(R, "Psot ends in the header")
          ELSE IF R.stop # 0 THEN [R EXCEPT !.at = R.stop, !.st = "sot"]
          ELSE IF Len(s) - 2 >= p + 2 /\ Code(s, Len(s) - 2) = EOC THEN [R EXCEPT !.at = Len(s) - 2, !.st = "sot"]
          ELSE End([R EXCEPT !.doubt = TRUE])
     ELSE IF Bare(m) THEN [R EXCEPT !.at = p + 2]
     ELSE IF m \in MainOnly \cup Delimiters THEN Bad(R, "misplaced in a tile-part header")
     ELSE IF m = PPT /\ PPM \in R.seen THEN Bad(R, "PPT with PPM")
     ELSE IF p + 4 > Len(s) THEN Bad(R, "cut off")
     ELSE LET L == U16(s, p + 2)
          IN IF L < 2 \/ p + 2 + L > stop THEN Bad(R, "length")
             ELSE IF ~Fits(s, p, m, L, R.siz.n) THEN Bad(R, "length and content")
             ELSE [R EXCEPT !.at = p + 2 + L, !.mine = @ \cup {m},
                            !.doubt = @ \/ Odd(s, p, m, L, R.siz.n) \/ (m \in FirstOnly /\ ~R.first)
                                        \/ (m \in {COD, QCD, POC} /\ m \in R.mine)]

Step(s, R) == CASE R.st = "soc" -> ReadSoc(s, R)
                [] R.st = "siz" -> ReadSizSeg(s, R)
                [] R.st = "main" -> ReadMain(s, R)
                [] R.st = "sot" -> ReadSot(s, R)
                [] R.st = "tile" -> ReadTilePart(s, R)
Over(R) == R.st \in {"good", "bad", "soft"}
=============================================================================
