-------------------------------- MODULE Rtn --------------------------------
(* Random telegraph noise: a two level process that runs along the measured pixels in row-major order. It starts       *)
(* without a burst, every block (with or without burst) has at least one pixel, blocks with and without bursts          *)
(* alternate, a burst keeps its height over its whole length.                                                           *)
EXTENDS Integers, Sequences, SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
\* runs: maximal constant stretches <<value, length>>
SumLen(r) == FoldLeft(LAMBDA a, x : a + x[2], 0, r)
RunsOK(r, pixels) ==
  /\ Len(r) >= 1 /\ r[1][1] = 0
  /\ \A i \in 1..Len(r) : r[i][2] >= 1
  /\ \A i \in 1..(Len(r) - 1) : (r[i][1] = 0) # (r[i + 1][1] = 0)
\* mean block length in 1/1000 pixel: scale and ranges in 1e-4 V (a range of 0: gate kept fixed)
PxPer(scale, n, range) == IF range = 0 THEN 0 ELSE (scale * n * 1000) \div range
BlockPx(e) ==
  LET px == IF e.rows = 0
            THEN PxPer(e.scale, e.cols, Max2(e.range1, e.range2))
            ELSE Max2(PxPer(e.scale, e.cols, e.range1), PxPer(e.scale, e.rows, e.range2))
  IN Max2(px, 1000)
\* certainly bursts of one pixel
Single(e) == LET n2 == IF e.rows = 0 THEN e.cols ELSE e.rows
             IN IF e.rows = 0 THEN e.scale * e.cols <= Max2(e.range1, e.range2)
                ELSE /\ e.range1 # 0 => e.scale * e.cols <= e.range1
                     /\ e.range2 # 0 => e.scale * n2 <= e.range2
BothFixed(e) == e.range1 = 0 /\ e.range2 = 0
=============================================================================
