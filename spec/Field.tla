-------------------------------- MODULE Field --------------------------------
(* Without noise a signal is a function of the voltages: every pixel of every scan has the value that belongs to its     *)
(* voltages, whatever scan it was measured in (C24).                                                                      *)
(* A scan e: kind (1: the plunger gates are swept, 2: the sensor gates), f1, f2 (grid point of the gates that are not      *)
(* swept), rows (0: 1D), cols, a1, m1, a2, m2 (first grid point and step of the swept gates), val (for every pixel, row by *)
(* row, its values), soft (pixels on or next to a lead transition: a scan of finite resolution may count the transition or *)
(* not).                                                                                                                   *)
EXTENDS Integers, Sequences
FAbs(x) == IF x < 0 THEN -x ELSE x
FNear(a, b, tol) == FAbs(a - b) <= tol
Pixels(e) == (IF e.rows = 0 THEN 1 ELSE e.rows) * e.cols
\* voltages of pixel k (1, 2, ...) in grid units
Row(e, k) == IF e.rows = 0 THEN k - 1 ELSE (k - 1) \div e.cols
Col(e, k) == IF e.rows = 0 THEN k - 1 ELSE (k - 1) % e.cols
At1(e, k) == e.a1 + e.m1 * Col(e, k)
At2(e, k) == e.a2 + e.m2 * Row(e, k)
\* index (0, 1, ...) of grid point x in a row of n points from a with step m, -1: none
Place(x, a, m, n) == IF m = 0 THEN (IF x = a THEN 0 ELSE -1)
                     ELSE LET d == (IF m > 0 THEN x - a ELSE a - x)   s == FAbs(m)
                          IN IF d >= 0 /\ d % s = 0 /\ d \div s < n THEN d \div s ELSE -1
\* pixel of scan e at grid point (x, y), 0: none
Pixel(e, x, y) ==
  IF e.rows > 0 THEN LET c == Place(x, e.a1, e.m1, e.cols)   r == Place(y, e.a2, e.m2, e.rows)
                     IN IF c < 0 \/ r < 0 THEN 0 ELSE r * e.cols + c + 1
  ELSE LET c == Place(x, e.a1, e.m1, e.cols)   r == Place(y, e.a2, e.m2, e.cols)
       IN IF e.m1 = 0 /\ c = 0 THEN r + 1 ELSE IF e.m2 = 0 /\ r = 0 THEN c + 1 ELSE IF c >= 0 /\ c = r THEN c + 1 ELSE 0
SameValue(u, v, tol) == Len(u) = Len(v) /\ \A i \in DOMAIN u : FNear(u[i], v[i], tol[i])
\* pixels of e that contradict the scan d
Contradictions(d, e) ==
  {k \in 1..Pixels(e) : LET j == Pixel(d, At1(e, k), At2(e, k))
                        IN j > 0 /\ ~ e.soft[k] /\ ~ d.soft[j] /\ ~ SameValue(d.val[j], e.val[k], e.tol)}
Compared(d, e) == {k \in 1..Pixels(e) : LET j == Pixel(d, At1(e, k), At2(e, k)) IN j > 0 /\ ~ e.soft[k] /\ ~ d.soft[j]}
SameSettings(d, e) == d.kind = e.kind /\ d.f1 = e.f1 /\ d.f2 = e.f2
\* a plunger scan and a sensor scan have at most one point in common: the fixed voltages of each other
Crossing(d, e) == LET j == Pixel(d, e.f1, e.f2)   k == Pixel(e, d.f1, d.f2) IN <<j, k>>
Common == 1                                     \* the signal: the value both kinds of scans have
Shared(v) == [i \in 1..Common |-> v[i]]
CrossAgree(d, e) == LET x == Crossing(d, e) IN
  x[1] = 0 \/ x[2] = 0 \/ d.soft[x[1]] \/ e.soft[x[2]] \/ SameValue(Shared(d.val[x[1]]), Shared(e.val[x[2]]), e.tol)
Agree(d, e) == IF d.kind # e.kind THEN CrossAgree(d, e) ELSE (SameSettings(d, e) => Contradictions(d, e) = {})
=============================================================================
