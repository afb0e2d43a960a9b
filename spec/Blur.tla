-------------------------------- MODULE Blur --------------------------------
(* Blurring of transitions: every line along the sweep (2D: along gate 1) is convolved with a normalised kernel, the   *)
(* line being mirrored at its ends. Widths are given in volt: pixels = volt * number of pixels / swept range.           *)
EXTENDS Fixed
\* sig: width in 1/1000 pixel, k: distance in pixels
Weight(kind, k, sig) ==
  LET u == (1000000 * Abs(k)) \div sig
  IN IF kind = "fermi"
     THEN LET s == Sigmoid(u) IN RDiv(4 * RDiv(s, 10) * RDiv(One - s, 10), 1000)
     ELSE IF u > 40000 THEN 0 ELSE Gauss((u * 7071) \div 10000)
Reach(sig) == Min2((5 * sig) \div 1000 + 1, 260)
Mirror(i, n) == LET m == i % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
RECURSIVE SumUpTo(_, _, _)
SumUpTo(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumUpTo(f, a + 1, b)
\* blurred line (values times 1000) of integer values at the positions P
BlurredAt(kind, line, sig, P) ==
  LET n == Len(line)  R == Reach(sig)
      w == [k \in -R..R |-> Weight(kind, k, sig)]
      \* total weight every pixel of the line contributes with
      W == SumUpTo(w, -R, R)
  IN IF sig <= 0 THEN [i \in P |-> 1000 * line[i]]
     ELSE [i \in P |-> Ratio1000(SumUpTo([k \in -R..R |-> w[k] * line[Mirror(i - 1 + k, n) + 1]], -R, R), W)]
Blurred(kind, line, sig) == BlurredAt(kind, line, sig, 1..Len(line))
\* width in 1/1000 pixel; sigma and ranges in 1e-4 V
PerVolt(sigma, n, range) == IF range = 0 THEN 0 ELSE (sigma * n * 1000) \div range
BlurPx(e, sigma) ==
  IF sigma <= 0 THEN 0
  ELSE IF e.rows > 0 THEN PerVolt(sigma, e.cols, e.range1)
  ELSE Max2(PerVolt(sigma, e.cols, e.range1), PerVolt(sigma, e.cols, e.range2))
=============================================================================
