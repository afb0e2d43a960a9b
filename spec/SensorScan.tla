------------------------------ MODULE SensorScan ------------------------------
(* A sensor with two barriers whose own gates can be swept: three potentials (sensor dot, barrier 1, barrier 2), the    *)
(* response of the three resistances in series, the final rise at the point where both barriers are fully open,         *)
(* deformed Coulomb peaks, and the two label masks. Units as in Sensor; resistances and responses 1e-4.                  *)
EXTENDS Sensor, FiniteSets
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
\* cfg c: ad, ag, asg: three pairs each, off: three numbers. o occupations, v gate and w sensor gate voltages
Pot(c, k, o, v, w) == 1000 * Dot(c.ad[k], o) + Dot(c.ag[k], v) + Dot(c.asg[k], w) + c.off[k]
\* three resistances in series, seen as conductances
Series(s, b1, b2) == IF s = 0 \/ b1 = 0 \/ b2 = 0 THEN 0
                     ELSE LET g == RDiv(b1 * b2, b1 + b2) IN RDiv(s * g, s + g)
\* a ramp between 0 and its cap: gain/1000 per 1e-6 of potential above its foot
Ramp(r, mu) == IF mu <= r.foot THEN 0 ELSE LET d == mu - r.foot IN IF d >= (r.cap * 1000) \div r.gain THEN r.cap ELSE (d * r.gain) \div 1000
\* the voltages of the sensor gates w at which both barriers have the given potentials
IsPoint(c, o, v, w, pot1, pot2) == Pot(c, 2, o, v, w) = pot1 /\ Pot(c, 3, o, v, w) = pot2
\* (x*k) / d without large products
MulDiv(x, k, d) == LET s == IF d < 0 THEN -1 ELSE 1   e == s * d   j == s * k IN (x \div e) * j + RDiv((x % e) * j, e)
\* how much the potential of the sensor dot at which both barriers are fully conductive grows if the potentials of sensor dot
\* and barriers grow by d0, d1, d2 while the sensor gates stay (the sensor gates have to make up for d1 and d2)
FullChange(c, d0, d1, d2) ==
  LET a == c.asg[1]   b == c.asg[2]   g == c.asg[3]   det == b[1] * g[2] - b[2] * g[1]
  IN d0 - MulDiv(d1, a[1] * g[2] - a[2] * g[1], det) - MulDiv(d2, a[2] * b[1] - a[1] * b[2], det)
\* ------------------------------------------------------------------------------------------------ deformed peaks
\* the largest r with r*r <= x
ISqrt(x) == FoldLeft(LAMBDA r, b : IF r + b <= 46340 /\ (r + b) * (r + b) <= x THEN r + b ELSE r, 0,
                     <<32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)
\* d: signed distance from the middle line in 1e-4, length of the lever arms of the sensor dot: norm in 1/100.
\* Shift of the peak in 1e-6. Linear: the peak is tilted by cot(angle) = k/1000. Circle: radius in 1e-4 (<= 400), signed.
LinearShift(d, norm, k) == RDiv(d * norm * k, 1000)
CircleShift(d, r) == LET a == Abs(r) IN IF Abs(d) >= a THEN -100 * r ELSE Sign(r) * (ISqrt((a * a - d * d) * 10000) - 100 * a)
Shift(q, d, norm) == IF q.kind = "linear" THEN LinearShift(d, norm, q.k) ELSE IF q.kind = "circle" THEN CircleShift(d, q.r) ELSE 0
\* signed distance (1e-4) of the point w from the line through p along which the potential of the sensor dot grows
Distance(c, w, p, norm) == (c.asg[1][2] * (w[1] - p[1]) - c.asg[1][1] * (w[2] - p[2])) \div norm
Shifted(peak, q, d, norm) == [peak EXCEPT !.mu0 = @ + Shift(q, d, norm)]
\* ------------------------------------------------------------------------------------------------ labels
\* area of a pixel: 0 not conductive, 1 oscillation regime, 2 fully conductive
Area(s, b1, b2, pinch, full) == IF b1 > pinch[1] /\ b2 > pinch[2] THEN (IF s > full THEN 2 ELSE 1) ELSE 0
SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x
\* distances of the pixels of one line from the top of a (deformed) peak -> pixels that may be marked. The pixel closest
\* to the top is marked; if it is the first or the last pixel only if it is closer than the mean step of the potential.
\* tol: what rounding may do
Closest(dist, tol) == LET m == SetMin({dist[i] : i \in DOMAIN dist}) IN {i \in DOMAIN dist : dist[i] <= m + tol}
AtEnd(i, n) == i = 1 \/ i = n
\* "must": the line has a mark, "may": it can have one, "no": it has none
Marked(dist, step, tol) ==
  LET n == Len(dist)   C == Closest(dist, tol)   m == SetMin({dist[i] : i \in DOMAIN dist})
  IN IF \A i \in C : ~AtEnd(i, n) THEN "must"
     ELSE IF m + tol < step THEN "must"
     ELSE IF (\A i \in C : AtEnd(i, n)) /\ m > step + tol THEN "no" ELSE "may"
=============================================================================
