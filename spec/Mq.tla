--------------------------------- MODULE Mq ---------------------------------
(* ITU-T T.800 Annex C: the MQ arithmetic decoder, as written in the         *)
(* standard's flow charts (C is split into its two halves).                  *)
(* State: <<A, Chigh, Clow, CT, BP, CX>>; CX[k] = 2 * index + mps.           *)
EXTENDS Num

QeTab == <<22017,13313,6145,2753,1313,545,22017,21505,18433,14337,12289,9217,7169,5633,22017,21505,
           20737,18433,14337,13313,12289,10241,9217,8705,7169,6145,5633,5121,4609,4353,2753,2497,
           2209,1313,1089,673,545,321,273,133,73,37,21,9,5,1,22017>>
NMps == <<1,2,3,4,5,38,7,8,9,10,11,12,13,29,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,
          36,37,38,39,40,41,42,43,44,45,45,46>>
NLps == <<1,6,9,12,29,33,6,14,14,14,17,18,20,21,14,14,15,16,17,18,19,19,20,21,22,23,24,25,26,27,28,29,30,31,
          32,33,34,35,36,37,38,39,40,41,42,43,46>>
Switch == {1, 7, 15}          \* 1-based rows whose LPS exchanges the sense

\* data is the segment; what lies beyond it reads as 0xFF
At(data, p) == IF p <= Len(data) THEN data[p] ELSE 255

\* BYTEIN on <<ch, cl, ct, bp>>
ByteIn(data, ch, cl, ct, bp) ==
  IF At(data, bp) = 255
  THEN LET b1 == At(data, bp + 1)
       IN IF b1 > 143 THEN LET v == cl + 65280 IN <<(ch + v \div 65536) % 65536, v % 65536, 8, bp>>
          ELSE LET v == cl + b1 * 512 IN <<(ch + v \div 65536) % 65536, v % 65536, 7, bp + 1>>
  ELSE LET v == cl + At(data, bp + 1) * 256
       IN <<(ch + v \div 65536) % 65536, v % 65536, 8, bp + 1>>

RECURSIVE Renorm(_, _, _, _, _, _)
Renorm(data, a, ch, cl, ct, bp) ==
  LET f == IF ct = 0 THEN ByteIn(data, ch, cl, ct, bp) ELSE <<ch, cl, ct, bp>>
      v == f[2] * 2
      a2 == a * 2
      ch2 == (f[1] * 2 + v \div 65536) % 65536
  IN IF a2 < 32768 THEN Renorm(data, a2, ch2, v % 65536, f[3] - 1, f[4])
     ELSE <<a2, ch2, v % 65536, f[3] - 1, f[4]>>

MqInit(data, cx) ==
  LET f == ByteIn(data, At(data, 1), 0, 0, 1)
      v == f[2] * 128
  IN <<32768, (f[1] * 128 + v \div 65536) % 65536, v % 65536, f[3] - 7, f[4], cx>>

\* Decode one decision in context k (1-based): <<decision, state'>>
MqDecode(data, s, k) ==
  LET cxk == s[6][k]
      i == cxk \div 2 + 1
      mps == cxk % 2
      qe == QeTab[i]
      a == s[1] - qe
      lps(a2, ch) == LET r == Renorm(data, a2, ch, s[3], s[4], s[5])
                     IN <<1 - mps, <<r[1], r[2], r[3], r[4], r[5],
                          [s[6] EXCEPT ![k] = 2 * NLps[i] + (IF i \in Switch THEN 1 - mps ELSE mps)]>>>>
      mpx(a2, ch) == LET r == Renorm(data, a2, ch, s[3], s[4], s[5])
                     IN <<mps, <<r[1], r[2], r[3], r[4], r[5], [s[6] EXCEPT ![k] = 2 * NMps[i] + mps]>>>>
  IN IF s[2] < qe
     THEN IF a < qe THEN mpx(qe, s[2]) ELSE lps(qe, s[2])
     ELSE IF a < 32768
          THEN IF a < qe THEN lps(a, s[2] - qe) ELSE mpx(a, s[2] - qe)
          ELSE <<mps, <<a, s[2] - qe, s[3], s[4], s[5], s[6]>>>>
=============================================================================
