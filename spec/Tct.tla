-------------------------------- MODULE Tct --------------------------------
(* The geometry of charge stability diagrams: total charge transitions (TCTs) made of straight lead transitions that   *)
(* are joined by quadratic Bezier curves at the triple points, in the rotated frame, in integer units.                 *)
(* A TCT p has: L1, L2 lengths (horizontal) of the rising and the falling lead transitions between two corner points,  *)
(* slopes sln/sld (left) and srn/srd (right), the leftmost point (x0, y0) of its first rounded corner and the          *)
(* horizontal distances dl, dr of the corner to the ends of its rounding. m is its number of peaks (0: unlimited).     *)
EXTENDS Fixed
Sl(p, d) == (d * p.sln) \div p.sld       \* height gained over the horizontal distance d along a left part
Sr(p, d) == (d * p.srn) \div p.srd
WellFormed(p) == /\ p.dl % p.sld = 0 /\ p.L1 % p.sld = 0 /\ p.dr % p.srd = 0 /\ p.L2 % p.srd = 0
                 /\ p.sln * p.srd > p.srn * p.sld
                 /\ p.L1 >= 2 * p.dl /\ p.L2 >= 2 * p.dr
Period(p) == p.L1 + p.L2
Rise(p) == Sl(p, p.L1) + Sr(p, p.L2)
\* corner points: even indices are peaks, odd ones valleys
Corner(p, i) ==
  LET j == i \div 2
      x == p.x0 + p.dl + j * Period(p)
      y == p.y0 + Sl(p, p.dl) + j * Rise(p)
  IN IF i % 2 = 0 THEN <<x, y>> ELSE <<x + p.L2, y + Sr(p, p.L2)>>
\* the ends of the rounding of corner i: the lead transition on the left of a peak has the left slope, of a valley the right one
Left(p, i) == LET c == Corner(p, i) IN
  IF i % 2 = 0 THEN <<c[1] - p.dl, c[2] - Sl(p, p.dl)>> ELSE <<c[1] - p.dr, c[2] - Sr(p, p.dr)>>
Right(p, i) == LET c == Corner(p, i) IN
  IF i % 2 = 0 THEN <<c[1] + p.dr, c[2] + Sr(p, p.dr)>> ELSE <<c[1] + p.dl, c[2] + Sl(p, p.dl)>>
Anchors(p, i) == <<Left(p, i), Corner(p, i), Right(p, i)>>
Last(m) == 2 * m - 2                      \* index of the last corner of a TCT with m peaks

\* points of the TCT, coordinates times n*n: of the rounding of corner i at parameter k/n, of the lead transition behind
\* it at the fraction k/n, of the outer parts at the distance k*sld (k*srd) from the first (last) rounding
OnRounding(p, i, k, n) ==
  LET a == Left(p, i)  c == Corner(p, i)  b == Right(p, i)
      B(q) == (n - k) * (n - k) * a[q] + 2 * k * (n - k) * c[q] + k * k * b[q]
  IN <<B(1), B(2)>>
OnLead(p, i, k, n) ==
  LET a == Right(p, i)  b == Left(p, i + 1)
  IN <<n * ((n - k) * a[1] + k * b[1]), n * ((n - k) * a[2] + k * b[2])>>
OnOuterLeft(p, k, n) == <<n * n * (p.x0 - k * p.sld), n * n * (p.y0 - k * p.sln)>>
OnOuterRight(p, m, k, n) == LET b == Right(p, Last(m)) IN <<n * n * (b[1] + k * p.srd), n * n * (b[2] + k * p.srn)>>

(* ---------------------------- where is a point with respect to a TCT? ---------------------------- *)
\* all heights times Q
Q == 64
\* interval that contains the height of the quadratic Bezier curve a, c, b (coordinates relative to a, times Q) at x
RECURSIVE BezIv(_, _, _, _, _)
BezIv(a, c, b, x, n) ==
  IF n = 0 \/ b[1] - a[1] <= 4
  THEN LET w == b[1] - a[1]
           ch == IF w <= 0 THEN a[2] ELSE a[2] + ((x - a[1]) * (b[2] - a[2])) \div w
           dev == (Abs(2 * c[2] - a[2] - b[2]) \div 2) + ((Abs(b[2] - a[2]) * Abs(2 * c[1] - a[1] - b[1])) \div (2 * Max2(w, 1)))
       IN <<ch - dev - 4, ch + dev + 4>>
  ELSE LET ac == <<(a[1] + c[1]) \div 2, (a[2] + c[2]) \div 2>>
           cb == <<(c[1] + b[1]) \div 2, (c[2] + b[2]) \div 2>>
           mid == <<(ac[1] + cb[1]) \div 2, (ac[2] + cb[2]) \div 2>>
       IN IF x <= mid[1] THEN BezIv(a, ac, mid, x, n - 1) ELSE BezIv(mid, cb, b, x, n - 1)
RoundIv(p, i, x) ==
  LET a == Left(p, i)  c == Corner(p, i)  b == Right(p, i)
      iv == BezIv(<<0, 0>>, <<Q * (c[1] - a[1]), Q * (c[2] - a[2])>>, <<Q * (b[1] - a[1]), Q * (b[2] - a[2])>>, Q * (x - a[1]), 5)
  IN <<Q * a[2] + iv[1], Q * a[2] + iv[2]>>
\* straight line through a with slope n/d, at x: exact up to the rounding of the division
LineIv(a, n, d, x) == LET h == (Q * (x - a[1]) * n) \div d IN <<Q * a[2] + h, Q * a[2] + h + 1>>
HeightIv(p, m, x) ==
  IF m > 0 /\ x <= p.x0 THEN LineIv(<<p.x0, p.y0>>, p.sln, p.sld, x)
  ELSE IF m > 0 /\ x >= Right(p, Last(m))[1] THEN LineIv(Right(p, Last(m)), p.srn, p.srd, x)
  ELSE LET j == (x - p.x0) \div Period(p)
           r == (x - p.x0) % Period(p)
       IN IF r <= p.dl + p.dr THEN RoundIv(p, 2 * j, x)
          ELSE IF x <= Left(p, 2 * j + 1)[1] THEN LineIv(Right(p, 2 * j), p.srn, p.srd, x)
          ELSE IF x <= Right(p, 2 * j + 1)[1] THEN RoundIv(p, 2 * j + 1, x)
          ELSE LineIv(Right(p, 2 * j + 1), p.sln, p.sld, x)
\* 1: on or above, -1: below, 0: closer than tol (in 1/Q units) to the TCT
Side(p, m, x, y, tol) ==
  LET iv == HeightIv(p, m, x) IN IF Q * y > iv[2] + tol THEN 1 ELSE IF Q * y < iv[1] - tol THEN -1 ELSE 0
\* number of consecutive TCTs at or below the point; a set of one or (close to a TCT) two candidates.
\* The n-th TCT has n peaks.
RECURSIVE CountFrom(_, _, _, _, _)
CountFrom(ps, n, x, y, tol) ==
  IF n > Len(ps) THEN {Len(ps)}
  ELSE LET s == Side(ps[n], n, x, y, tol)
       IN IF s = 1 THEN CountFrom(ps, n + 1, x, y, tol)
          ELSE IF s = -1 THEN {n - 1}
          ELSE {n - 1} \union CountFrom(ps, n + 1, x, y, tol)
Counts(ps, x, y, tol) == CountFrom(ps, 1, x, y, tol)

(* ---------------------------- interdot transitions ---------------------------- *)
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Minus(u, v) == <<u[1] - v[1], u[2] - v[2]>>
\* signed distance (times the length of the line) of q to the line that runs from the first peak of TCT N to the first
\* valley of TCT N+1: this is where the first electron moves from dot 2 to dot 1; it grows with the occupation of dot 1
RefFrom(ps, N) == Corner(ps[N], 0)
RefTo(ps, N) == Corner(ps[N + 1], 1)
Dist(ps, N, q) == -Cross(Minus(RefTo(ps, N), RefFrom(ps, N)), Minus(q, RefFrom(ps, N)))
\* share of the i-th interdot transition of region N: distance to it in units of gamma (times 1000); F = factor*100
Arg(ps, N, i, q, F) ==
  LET W == Dist(ps, N, Right(ps[N], 2 * i)) - Dist(ps, N, Left(ps[N], 2 * i))
      d == Dist(ps, N, q) - Dist(ps, N, Corner(ps[N], 2 * i))
      k == Abs(d) \div Max2(W, 1)
  IN IF W = 0 THEN (IF d > 0 THEN 10000000 ELSE IF d < 0 THEN -10000000 ELSE 0)
     ELSE IF k >= 2000 THEN Sign(d) * 20000 * F
     ELSE IF k > 2 THEN Sign(d) * ((Ratio1000(Abs(d), W) * F) \div 100)
     ELSE Sign(d) * ((Ratio1000(Abs(d), W) * F) \div 100 + ((Ratio1000((Ratio1000rest(Abs(d), W)), W)) * F) \div 100000)
Cdf(kind, z) == IF kind = "sigmoid" THEN (IF Abs(z) > 8000 THEN (IF z > 0 THEN One ELSE 0) ELSE Sigmoid(z)) ELSE CauchyCdf(z)
OccDot1(ps, N, q, kind, F) == SumSeq([i \in 1..N |-> Cdf(kind, Arg(ps, N, i - 1, q, F))])
=============================================================================
