------------------------------- MODULE GeoMC -------------------------------
(* The laws behind the helper functions, on all small exact instances.                                                   *)
EXTENDS Geo, FiniteSets
CONSTANT K
VARIABLES ln, ot, pt, r
Coord == (0 - K)..K
Lines == {Line(p, c) : p \in {-4, -3, 0, 3, 5}, c \in {4 * x : x \in Coord} \cup {1}} \cup {Vert(x) : x \in Coord}
Init == ln \in Lines /\ ot \in Lines /\ pt \in Coord \X Coord /\ r \in 1..3
Next == UNCHANGED <<ln, ot, pt, r>>
\* a point is on at most one side of a line, and of the mirrored line on the other
BelowLaw == ~ ln.v => /\ ~ (Below(pt, ln) /\ Below(<<pt[1], -pt[2]>>, Line(-ln.p, -ln.c)))
                      /\ (4 * pt[2] # ln.p * pt[1] + ln.c) => (Below(pt, ln) \/ Below(<<pt[1], -pt[2]>>, Line(-ln.p, -ln.c)))
\* lines that are not parallel have exactly one common point: x (p1 - p2) = c2 - c1 has one solution
CrossLaw == (~ Parallel(ln, ot) /\ ~ ln.v /\ ~ ot.v) =>
              \A x1, x2 \in Coord : (x1 * (ln.p - ot.p) = ot.c - ln.c /\ x2 * (ln.p - ot.p) = ot.c - ln.c) => x1 = x2
ParallelLaw == Parallel(ln, ot) = Parallel(ot, ln)
\* the number of intersections: none outside, one for tangents, two for secants; integer points of the circle on the line agree
Wide == (0 - 3 * K - 6)..(3 * K + 6)
OnBoth == {q \in Wide \X Wide :
              /\ (q[1] - pt[1]) * (q[1] - pt[1]) + (q[2] - pt[2]) * (q[2] - pt[2]) = r * r
              /\ IF ln.v THEN q[1] = ln.c ELSE 4 * q[2] = ln.p * q[1] + ln.c}
CircleLaw == ot = ln => Cardinality(OnBoth) <= Hits(ln, pt[1], pt[2], r)
\* through the centre: always two
CentreLaw == Side(ln, pt[1], pt[2]) = 0 => Hits(ln, pt[1], pt[2], r) = 2
\* rotations with exact cosine and sine (3/5, 4/5) keep lengths, and a rotation and its inverse are the identity
Rot(q, c, s) == <<c * q[1] - s * q[2], s * q[1] + c * q[2]>>
RotLaw == LET q == Rot(pt, 3, 4)  b == Rot(q, 3, -4) IN
            /\ q[1] * q[1] + q[2] * q[2] = 25 * (pt[1] * pt[1] + pt[2] * pt[2])
            /\ b = <<25 * pt[1], 25 * pt[2]>>
\* the signed distance changes its sign with the direction of the line, and is zero on it
DistLaw == /\ Dist3(pt, <<0, 0>>, <<3, 4>>, 5) = -Dist3(pt, <<0, 0>>, <<-3, -4>>, 5)
           /\ (4 * pt[1] = 3 * pt[2]) => Dist3(pt, <<0, 0>>, <<3, 4>>, 5) = 0
           /\ Dist3(<<1, 0>>, <<0, 0>>, <<0, r>>, r) = 1000
\* distributions are symmetric, monotonic and between 0 and 1
CdfLaw == \A g \in {0, 10, 250} : LET x == 37 * pt[1]   y == 37 * pt[1] + r IN
            /\ SigmoidAt(x, 0, g) <= SigmoidAt(y, 0, g) + 2 /\ CauchyAt(x, 0, g) <= CauchyAt(y, 0, g) + 2
            /\ (g # 0) => SigmoidAt(x, 0, g) + SigmoidAt(-x, 0, g) = One /\ Abs(CauchyAt(x, 0, g) + CauchyAt(-x, 0, g) - One) <= 2
            /\ CauchyAt(x, 0, g) \in 0..One /\ SigmoidAt(x, 0, g) \in 0..One
=============================================================================
