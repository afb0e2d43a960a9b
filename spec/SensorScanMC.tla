----------------------------- MODULE SensorScanMC -----------------------------
(* Laws of the model of the sensor for sensor scans.                                                                     *)
EXTENDS SensorScan, TLC
CONSTANTS Values
VARIABLES s, b1, b2
Init == s \in Values /\ b1 \in Values /\ b2 \in Values
Next == UNCHANGED <<s, b1, b2>>
R == Series(s, b1, b2)
Min3 == Min2(s, Min2(b1, b2))
\* the least conductive part decides: between a third of it and all of it
Bounds == R <= Min3 + 1 /\ R >= Min3 \div 3 - 1
Closed == R = 0 => Min3 <= 2
ClosedExactly == Min3 = 0 => R = 0
Symmetric == /\ Abs(R - Series(b1, s, b2)) <= 2 /\ Abs(R - Series(s, b2, b1)) <= 1 /\ Abs(R - Series(b2, b1, s)) <= 2
Monotone == Series(s + 50, b1, b2) >= R /\ Series(s, b1 + 50, b2) >= R - 1 /\ Series(s, b1, b2 + 50) >= R - 1
\* a fully open part does not matter
Open == (s <= 1000 /\ b1 <= 1000 /\ b1 + s > 0) => Abs(Series(s, b1, 60000) - (IF s = 0 \/ b1 = 0 THEN 0 ELSE RDiv(s * b1, s + b1))) <= 1 + Min2(s, b1) \div 60
\* all laws of the areas: more open barriers never make a pixel less conductive
AreaLaw == \A full \in {300} : LET A(x, y, z) == Area(x, y, z, <<400, 700>>, full) IN
             /\ A(s, b1, b2) \in {0, 1, 2}
             /\ A(s + 10, b1, b2) >= A(s, b1, b2) /\ A(s, b1 + 10, b2) >= A(s, b1, b2) /\ A(s, b1, b2 + 10) >= A(s, b1, b2)
             /\ (A(s, b1, b2) = 0) = (b1 <= 400 \/ b2 <= 700)
RampLaw == LET r == [foot |-> 100, cap |-> 5000, gain |-> 700] IN
             /\ Ramp(r, s) \in 0..5000 /\ (s <= b1 => Ramp(r, s) <= Ramp(r, b1)) /\ (s <= 100 => Ramp(r, s) = 0) /\ Ramp(r, 100 + s * 1000) = Min2(5000, s * 700)
\* electrons and voltages change from o, v to p, u, and the sensor gates from w to x so that the barriers keep their potentials:
\* the change of the potential of the sensor dot is FullChange
ASSUME Full == \A asg \in {<<<<60, 80>>, <<70, 10>>, <<20, 60>>>>, <<<<50, 0>>, <<3, 70>>, <<60, -2>>>>, <<<<7, 24>>, <<40, 0>>, <<30, 50>>>>} :
                 \A x \in {<<0, 0>>, <<13, -20>>, <<-700, 401>>} : \A d0 \in {0, 777, -12345} :
                   LET c == [asg |-> asg] IN FullChange(c, d0, -Dot(asg[2], x), -Dot(asg[3], x)) = d0 + Dot(asg[1], x)
ASSUME Root == \A x \in {0, 1, 2, 3, 4, 15, 16, 17, 99999, 1000000, 1599999999, 1600000000} : LET r == ISqrt(x) IN r * r <= x /\ (r + 1) * (r + 1) > x
\* circles: no shift on the middle line, the full radius at its border and beyond, on the circle between; symmetric
ASSUME Circle == \A r \in {1, 7, 50, 400} : /\ CircleShift(0, r) = 0 /\ CircleShift(r, r) = -100 * r /\ CircleShift(3 * r, r) = -100 * r
                                            /\ \A d \in 0..(r + 2) : /\ CircleShift(d, r) = CircleShift(-d, r) /\ CircleShift(d, -r) = -CircleShift(d, r)
                                                                     /\ CircleShift(d + 1, r) <= CircleShift(d, r)
                                                                     /\ d <= r => LET h == (100 * r + CircleShift(d, r)) IN Abs(h * h - 10000 * (r * r - d * d)) <= 2 * h + 1
ASSUME Linear == LinearShift(0, 50, 300) = 0 /\ LinearShift(20, 50, 300) = 300 /\ LinearShift(-20, 50, 300) = -300
\* lever arms (3, 4)/10: the point one step along the potential gradient lies on the middle line; across it lies at its distance
ASSUME Dist == LET c == [asg |-> <<<<30, 40>>, <<0, 0>>, <<0, 0>>>>] IN
                 /\ Distance(c, <<30, 40>>, <<0, 0>>, 50) = 0 /\ Distance(c, <<40, -30>>, <<0, 0>>, 50) = 50 /\ Distance(c, <<-40, 30>>, <<0, 0>>, 50) = -50
                 /\ Distance(c, <<140, 70>>, <<100, 100>>, 50) = 50
ASSUME Marks == /\ Marked(<<5, 3, 1, 4>>, 2, 0) = "must" /\ Closest(<<5, 3, 1, 4>>, 0) = {3}
                /\ Marked(<<1, 3, 5>>, 2, 0) = "must" /\ Marked(<<3, 5, 7>>, 2, 0) = "no" /\ Marked(<<2, 4, 6>>, 2, 0) = "may"
=============================================================================
