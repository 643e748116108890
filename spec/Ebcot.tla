------------------------------- MODULE Ebcot --------------------------------
(* ITU-T T.800 Annex D: coefficient bit modelling.  DecodeBlock turns the    *)
(* codeword segments of one code-block into its coefficients.                *)
(* Segment: [np, data]; flags as in the SPcod code-block style byte.         *)
EXTENDS Mq

Bypass(m) == Bit(m, 0) = 1
Reset(m) == Bit(m, 1) = 1
TermAll(m) == Bit(m, 2) = 1
Causal(m) == Bit(m, 3) = 1
SegSym(m) == Bit(m, 5) = 1

\* Contexts: 1..9 zero coding, 10..14 sign, 15..17 refinement, 18 run, 19 uniform
FreshCx == [k \in 1..19 |-> IF k = 19 THEN 92 ELSE IF k = 18 THEN 6 ELSE IF k = 1 THEN 8 ELSE 0]

Abs1(x) == x * x              \* for x in {-1, 0, 1}

\* Coefficients are kept in a bordered array, W = w + 2 entries a row; position
\* p = y * W + x + 1 for x in 1..w, y in 1..h.  sg: sign of a significant one
\* or 0; cf: <<magnitude, plane of last visit, refined>>.
ZcClass(o, h, v, d) ==
  IF o = 3
  THEN LET hv == h + v
       IN IF d >= 3 THEN 8
          ELSE IF d = 2 THEN IF hv >= 1 THEN 7 ELSE 6
          ELSE IF d = 1 THEN IF hv >= 2 THEN 5 ELSE IF hv = 1 THEN 4 ELSE 3
          ELSE IF hv >= 2 THEN 2 ELSE hv
  ELSE LET hh == IF o = 1 THEN v ELSE h
           vv == IF o = 1 THEN h ELSE v
       IN IF hh = 2 THEN 8
          ELSE IF hh = 1 THEN IF vv >= 1 THEN 7 ELSE IF d >= 1 THEN 6 ELSE 5
          ELSE IF vv = 2 THEN 4 ELSE IF vv = 1 THEN 3
          ELSE IF d >= 2 THEN 2 ELSE d
ZcTab == [o \in 0..3 |-> [h \in 0..2 |-> [v \in 0..2 |-> [d \in 0..4 |-> ZcClass(o, h, v, d)]]]]

\* Neighbourhood class of position p; low = FALSE hides the row below (vertically causal)
Zc(sg, W, o, p, low) ==
  ZcTab[o][Abs1(sg[p - 1]) + Abs1(sg[p + 1])]
          [Abs1(sg[p - W]) + (IF low THEN Abs1(sg[p + W]) ELSE 0)]
          [Abs1(sg[p - W - 1]) + Abs1(sg[p - W + 1])
           + (IF low THEN Abs1(sg[p + W - 1]) + Abs1(sg[p + W + 1]) ELSE 0)]

\* Sign context: <<context, flip>>
ScOf(sg, W, p, low) ==
  LET Lim(x) == IF x > 1 THEN 1 ELSE IF x < -1 THEN -1 ELSE x
      h == Lim(sg[p - 1] + sg[p + 1])
      v == Lim(sg[p - W] + (IF low THEN sg[p + W] ELSE 0))
  IN IF h = 1 THEN IF v = 1 THEN <<14, 0>> ELSE IF v = 0 THEN <<13, 0>> ELSE <<12, 0>>
     ELSE IF h = 0 THEN IF v = 1 THEN <<11, 0>> ELSE IF v = 0 THEN <<10, 0>> ELSE <<11, 1>>
     ELSE IF v = 1 THEN <<12, 1>> ELSE IF v = 0 THEN <<13, 1>> ELSE <<14, 1>>

\* Raw segments: reader <<next byte, current byte, bits left>>
RawInit == <<1, 0, 0>>
RawBit(data, s) ==
  IF s[3] > 0 THEN <<Bit(s[2], s[3] - 1), <<s[1], s[2], s[3] - 1>>>>
  ELSE LET b == At(data, s[1])
           k == IF s[2] = 255 THEN 7 ELSE 8
       IN <<Bit(b, k - 1), <<s[1] + 1, b, k - 1>>>>

\* Scan order: stripes of four rows, column by column.  Entries <<p, low>>.
Scan(w, h, causal) ==
  LET W == w + 2
      Stripe(s) == LET y0 == 4 * s + 1
                       n == Min2(4, h - 4 * s)
                   IN [k \in 1..(w * n) |->
                         LET x == (k - 1) \div n + 1
                             y == y0 + ((k - 1) % n)
                         IN <<y * W + x + 1, ~(causal /\ (y - 1) % 4 = 3)>>]
  IN FlatMap(Stripe, Upto(0, CeilDiv(h, 4) - 1))

\* One decision in context k, arithmetic or raw: <<bit, decoder'>>
Get(raw, data, mq, k) == IF raw THEN RawBit(data, mq) ELSE MqDecode(data, mq, k)

\* acc = <<decoder, sg, cf>>
SignOf(raw, data, W, p, low, mq, sg) ==
  IF raw THEN LET b == RawBit(data, mq) IN <<IF b[1] = 1 THEN -1 ELSE 1, b[2]>>
  ELSE LET sc == ScOf(sg, W, p, low)
           b == MqDecode(data, mq, sc[1])
       IN <<IF (b[1] + sc[2]) % 2 = 1 THEN -1 ELSE 1, b[2]>>

BecomeSig(raw, data, W, bp, p, low, mq, sg, cf) ==
  LET s == SignOf(raw, data, W, p, low, mq, sg)
  IN <<s[2], [sg EXCEPT ![p] = s[1]], [cf EXCEPT ![p] = <<2^bp, bp, 0>>]>>

SigPass(raw, data, W, o, bp, scan, acc0) ==
  LET Step(acc, e) ==
        LET p == e[1] IN
        IF acc[2][p] # 0 THEN acc
        ELSE LET z == Zc(acc[2], W, o, p, e[2]) IN
             IF z = 0 THEN acc
             ELSE LET b == Get(raw, data, acc[1], z + 1)
                  IN IF b[1] = 1 THEN BecomeSig(raw, data, W, bp, p, e[2], b[2], acc[2], acc[3])
                     ELSE <<b[2], acc[2], [acc[3] EXCEPT ![p] = <<0, bp, 0>>]>>
  IN FoldLeft(Step, acc0, scan)

RefPass(raw, data, W, o, bp, scan, acc0) ==
  LET Step(acc, e) ==
        LET p == e[1]
            c == acc[3][p]
        IN IF acc[2][p] = 0 \/ c[2] = bp THEN acc
           ELSE LET k == IF c[3] = 1 THEN 17 ELSE IF Zc(acc[2], W, 3, p, e[2]) = 0 THEN 15 ELSE 16
                    b == Get(raw, data, acc[1], k)
                IN <<b[2], acc[2], [acc[3] EXCEPT ![p] = <<c[1] + b[1] * 2^bp, c[2], 1>>]>>
  IN FoldLeft(Step, acc0, scan)

\* Columns of the cleanup pass: sequences of scan entries, four long where run mode may apply
Columns(w, h, causal) ==
  LET W == w + 2
      Stripe(s) == LET n == Min2(4, h - 4 * s)
                   IN [x \in 1..w |-> [k \in 1..n |-> <<(4 * s + k) * W + x + 1, ~(causal /\ k = 4)>>]]
  IN FlatMap(Stripe, Upto(0, CeilDiv(h, 4) - 1))

CleanPass(data, W, o, bp, cols, acc0) ==
  LET One(acc, e) ==
        LET p == e[1] IN
        IF acc[2][p] # 0 \/ acc[3][p][2] = bp THEN acc
        ELSE LET b == MqDecode(data, acc[1], Zc(acc[2], W, o, p, e[2]) + 1)
             IN IF b[1] = 1 THEN BecomeSig(FALSE, data, W, bp, p, e[2], b[2], acc[2], acc[3])
                ELSE <<b[2], acc[2], acc[3]>>
      Quiet(acc, e) == acc[2][e[1]] = 0 /\ acc[3][e[1]][2] # bp /\ Zc(acc[2], W, o, e[1], e[2]) = 0
      Col(acc, col) ==
        IF Len(col) = 4 /\ \A k \in 1..4 : Quiet(acc, col[k])
        THEN LET r == MqDecode(data, acc[1], 18) IN
             IF r[1] = 0 THEN <<r[2], acc[2], acc[3]>>
             ELSE LET u == MqDecode(data, r[2], 19)
                      v == MqDecode(data, u[2], 19)
                      k == 2 * u[1] + v[1] + 1
                      a == BecomeSig(FALSE, data, W, bp, col[k][1], col[k][2], v[2], acc[2], acc[3])
                  IN FoldLeft(One, a, SubSeq(col, k + 1, 4))
        ELSE FoldLeft(One, acc, col)
  IN FoldLeft(Col, acc0, cols)

\* Coding pass n (from 0): 0 cleanup, 1 significance, 2 refinement; plane
PassKind(n) == n % 3
PassPlane(top, n) == top - (n + 2) \div 3
RawPass(m, n) == Bypass(m) /\ n >= 10 /\ PassKind(n) # 0

\* Last pass of the codeword segment that pass n belongs to
SegmentEnd(m, n) ==
  IF TermAll(m) THEN n
  ELSE IF ~Bypass(m) THEN 1000
  ELSE IF n < 10 THEN 9
  ELSE IF PassKind(n) = 0 THEN n ELSE IF PassKind(n) = 1 THEN n + 1 ELSE n

\* planes: number of coded bit-planes.  Result: [ok, d] with d rows of coefficients.
DecodeBlock(w, h, o, m, planes, segs) ==
  LET W == w + 2
      scan == Scan(w, h, Causal(m))
      cols == Columns(w, h, Causal(m))
      zero == TLCEval([k \in 1..(W * (h + 2)) |-> 0])
      cf0 == TLCEval([k \in 1..(W * (h + 2)) |-> <<0, -1, 0>>])
      \* acc: <<pass number, contexts, sg, cf, ok>>
      Seg(acc, sgm) ==
        LET raw == RawPass(m, acc[1])
            dec0 == IF raw THEN RawInit ELSE MqInit(sgm.data, acc[2])
            OnePass(a, n) ==          \* a = <<decoder, sg, cf, ok>>
              LET bp == PassPlane(planes - 1, n)
                  kind == PassKind(n)
                  r == IF kind = 0 THEN CleanPass(sgm.data, W, o, bp, cols, <<a[1], a[2], a[3]>>)
                       ELSE IF kind = 1 THEN SigPass(raw, sgm.data, W, o, bp, scan, <<a[1], a[2], a[3]>>)
                       ELSE RefPass(raw, sgm.data, W, o, bp, scan, <<a[1], a[2], a[3]>>)
                  sym == IF kind = 0 /\ SegSym(m)
                         THEN LET b1 == MqDecode(sgm.data, r[1], 19)
                                  b2 == MqDecode(sgm.data, b1[2], 19)
                                  b3 == MqDecode(sgm.data, b2[2], 19)
                                  b4 == MqDecode(sgm.data, b3[2], 19)
                              IN <<b4[2], b1[1] = 1 /\ b2[1] = 0 /\ b3[1] = 1 /\ b4[1] = 0>>
                         ELSE <<r[1], TRUE>>
                  d2 == IF Reset(m) /\ ~raw THEN <<sym[1][1], sym[1][2], sym[1][3], sym[1][4], sym[1][5], FreshCx>>
                        ELSE sym[1]
              IN <<d2, r[2], r[3], a[4] /\ sym[2] /\ bp >= 0>>
            z == FoldLeft(OnePass, <<dec0, acc[3], acc[4], acc[5]>>, Upto(acc[1], acc[1] + sgm.np - 1))
        IN <<acc[1] + sgm.np, IF raw THEN (IF Reset(m) THEN FreshCx ELSE acc[2]) ELSE z[1][6], z[2], z[3], z[4]>>
      fin == FoldLeft(Seg, <<0, FreshCx, zero, cf0, TRUE>>, segs)
  IN [ok |-> fin[5], passes |-> fin[1],
      d |-> TLCEval([y \in 1..h |-> [x \in 1..w |-> LET p == y * W + x + 1 IN fin[3][p] * fin[4][p][1]]])]
=============================================================================
