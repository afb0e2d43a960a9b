-------------------------------- MODULE Noise --------------------------------
(* White and pink noise. Noise values q are given in 1/100 of the configured standard deviation.                        *)
(* White: independent normal values. Pink: the spectral density is proportional to 1/f above the frequency fmin (fmin = *)
(* 0: the lowest frequency of the record), constant below. Blocks of m values tell them apart: the mean squared         *)
(* difference of the averages of neighbouring blocks falls like 1/m for white noise and is independent of m for pink.   *)
EXTENDS Integers, Sequences, SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Part(q, i, m) == Sum(SubSeq(q, i, i + m - 1))
\* sum over all pairs of neighbouring blocks of ((second average - first average)/u)^2 and the number of pairs
Pairs(q, m) == Len(q) \div (2 * m)
Allan(q, m, u) ==
  FoldLeft(LAMBDA a, j : LET d == (Part(q, (2 * j + 1) * m + 1, m) - Part(q, 2 * j * m + 1, m)) \div (m * u) IN a + d * d,
           0, [j \in 1..Pairs(q, m) |-> j - 1])
AllanAll(rs, m, u) == FoldLeft(LAMBDA a, q : a + Allan(q, m, u), 0, rs)
PairsAll(rs, m) == FoldLeft(LAMBDA a, q : a + Pairs(q, m), 0, rs)
\* mean squared difference in 1/1000 of the variance (u = 3: (100/3)^2 = 1111 per variance)
Level(rs, m) == (AllanAll(rs, m, 3) * 9) \div (PairsAll(rs, m) * 10)
=============================================================================
