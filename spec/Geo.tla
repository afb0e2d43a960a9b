-------------------------------- MODULE Geo --------------------------------
(* Points, lines, circles, rotations and cumulative distributions: what the helper functions compute (C21).              *)
(* Inputs are exact: coordinates are integers, slopes and intercepts quarters (p/4, c/4), so that the code works on the  *)
(* same numbers. Outputs are integers in the unit named at each operator.                                                *)
EXTENDS Fixed
\* ------------------------------------------------------------------ lines  y = (p x + c) / 4,  or vertical  x = v
Line(p, c) == [v |-> FALSE, p |-> p, c |-> c]
Vert(x) == [v |-> TRUE, p |-> 0, c |-> x]
Below(pt, ln) == 4 * pt[2] < ln.p * pt[1] + ln.c
Parallel(a, b) == (a.v /\ b.v) \/ (~ a.v /\ ~ b.v /\ a.p = b.p)
\* out in 1e-4: does the point lie on the line?
OnLine4(out, ln) == IF ln.v THEN Abs(out[1] - 10000 * ln.c) <= 1
                    ELSE Abs(4 * out[2] - ln.p * out[1] - 10000 * ln.c) <= Abs(ln.p) + 5
\* ------------------------------------------------------------------ circles: centre (a, b), radius r, all integers
\* squared distance of the centre from the line, compared with r^2: both sides times the squared length of the direction
Side(ln, a, b) == IF ln.v THEN a - ln.c ELSE ln.p * a - 4 * b + ln.c
Len2(ln) == IF ln.v THEN 1 ELSE ln.p * ln.p + 16
Hits(ln, a, b, r) == LET d == Side(ln, a, b) * Side(ln, a, b)   e == r * r * Len2(ln)
                     IN IF d > e THEN 0 ELSE IF d = e THEN 1 ELSE 2
\* out in 1e-3
OnLine3(out, ln) == IF ln.v THEN Abs(out[1] - 1000 * ln.c) <= 1
                    ELSE Abs(4 * out[2] - ln.p * out[1] - 1000 * ln.c) <= Abs(ln.p) + 5
OnCircle3(out, a, b, r) == LET dx == out[1] - 1000 * a  dy == out[2] - 1000 * b
                           IN /\ Abs(dx) <= 1001 * r /\ Abs(dy) <= 1001 * r
                              /\ Abs(dx * dx + dy * dy - 1000000 * r * r) <= 4000 * r
\* ------------------------------------------------------------------ signed distances
\* line through q and q + k d, with d of integer length n: positive to the right of the direction
Dist3(pt, q, d, n) == RDiv(-1000 * (d[1] * (pt[2] - q[2]) - d[2] * (pt[1] - q[1])), n)
\* ------------------------------------------------------------------ rotations; cosine and sine in 1e-5
Rotated(pt, cs) == <<cs[1] * pt[1] - cs[2] * pt[2], cs[2] * pt[1] + cs[1] * pt[2]>>
\* ------------------------------------------------------------------ cumulative distributions in 1e-5; x, x0 in 1e-3, gam in 1e-3
Half(x) == IF x >= 0 THEN 1 ELSE -1
\* (x - x0)/gam in 1e-3
Arg(x, x0, g) == LET d == Abs(x - x0) IN IF d \div g > 1500 THEN 1500000 ELSE Ratio1000(d, g)
SigmoidAt(x, x0, g) == IF g = 0 THEN IF x > x0 THEN One ELSE 0 ELSE Sigmoid(Half(x - x0) * Arg(x, x0, g))
CauchyAt(x, x0, g) == IF g = 0 THEN IF x > x0 THEN One ELSE 0 ELSE CauchyCdf(Half(x - x0) * Arg(x, x0, g))
\* derivative of the sigmoid times its width: (1/2) / cosh(z)^2 = 2 s (1 - s), where s is the sigmoid
Sech(x, x0, g) == LET z == SigmoidAt(x, x0, g) \div 5 IN RDiv(z * (20000 - z), 2000)
CdfSum(fam, x, ps) == LET f == [i \in 1..(Len(ps) \div 2) |-> IF fam = "sigmoid" THEN SigmoidAt(x, ps[2 * i - 1], ps[2 * i])
                                                              ELSE CauchyAt(x, ps[2 * i - 1], ps[2 * i])]
                      IN SumSeq(f)
\* ------------------------------------------------------------------ verdicts
Fails(c) ==
  IF c.f = "below" THEN
       IF c.err # "" THEN IF c.valid THEN {"below_error"} ELSE IF c.err # "ValueError" THEN {"below_refusal"} ELSE {}
       ELSE IF ~ c.valid THEN {"below_refusal"} ELSE IF c.out # Below(c.pt, c.line) THEN {"below"} ELSE {}
  ELSE IF c.f = "cross" THEN
       IF ~ c.valid \/ Parallel(c.l1, c.l2) THEN IF c.err # "ValueError" THEN {"cross_refusal"} ELSE {}
       ELSE IF c.err # "" THEN {"cross_error"}
       ELSE IF ~ (OnLine4(c.out, c.l1) /\ OnLine4(c.out, c.l2)) THEN {"cross"} ELSE {}
  ELSE IF c.f = "circle" THEN
       IF c.r <= 0 THEN IF c.err # "ValueError" THEN {"circle_refusal"} ELSE {}
       ELSE IF c.err # "" THEN {"circle_error"}
       ELSE IF \/ Len(c.out) # Hits(c.line, c.a, c.b, c.r)
               \/ \E i \in DOMAIN c.out : ~ (OnLine3(c.out[i], c.line) /\ OnCircle3(c.out[i], c.a, c.b, c.r))
               \/ Len(c.out) = 2 /\ c.out[1] = c.out[2] THEN {"circle"} ELSE {}
  ELSE IF c.f = "dist" THEN
       (IF c.err # "" THEN {"dist_error"}
        ELSE IF \/ Len(c.out) # Len(c.pts)
                \/ \E i \in DOMAIN c.out : Abs(c.out[i] - Dist3(c.pts[i], c.q, c.d, c.n)) > 1 THEN {"dist"} ELSE {})
  ELSE IF c.f = "rotate" THEN
       (IF c.err # "" THEN {"rotate_error"}
        ELSE IF \/ Len(c.out) # Len(c.pts)
                \/ \E i \in DOMAIN c.out : \E k \in 1..2 : Abs(c.out[i][k] - Rotated(c.pts[i], c.cs)[k]) > 1 + Abs(c.pts[i][1]) + Abs(c.pts[i][2])
             THEN {"rotate"} ELSE {})
  ELSE IF c.f = "sech" THEN
       (IF c.err # "" THEN {"derivative_error"}
        ELSE IF \/ Len(c.out) # Len(c.x) \/ \E i \in DOMAIN c.x : Abs(c.out[i] - Sech(c.x[i], c.x0, c.g)) > 90 THEN {"derivative"} ELSE {})
  ELSE IF c.f = "pixel" THEN
       (IF c.err # "" THEN {"pixel_error"}
        \* volts in 1e-6, start and stop in 1e-6
        ELSE IF Abs(c.n * (c.out - c.start) - c.pixel * (c.stop - c.start)) > 2 * c.n THEN {"pixel"} ELSE {})
  ELSE \* cumulative distributions
       (IF c.err # "" THEN {"cdf_error"}
        ELSE IF \/ Len(c.out) # Len(c.x)
                \/ \E i \in DOMAIN c.x : Abs(c.out[i] - CdfSum(c.fam, c.x[i], c.ps)) > 30 * Len(c.ps) THEN {"cdf"} ELSE {})
FailsAll(c) == Fails(c) \cup (IF c.changed THEN {"argument_changed"} ELSE {})
=============================================================================
