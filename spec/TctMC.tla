-------------------------------- MODULE TctMC --------------------------------
(* Exhaustive check of the geometry itself over a grid of TCT parameters and points.                                   *)
EXTENDS Tct, TLC
CONSTANTS Slopes, Lens, Dists
VARIABLES p, x
\* the spec's own rounding corners: slopes are halves
Ps == {[L1 |-> 2 * l1, L2 |-> 2 * l2, sln |-> s1, sld |-> 2, srn |-> -s2, srd |-> 2, x0 |-> 6, y0 |-> 40, dl |-> 2 * d1, dr |-> 2 * d2] :
        l1 \in Lens, l2 \in Lens, s1 \in Slopes, s2 \in Slopes, d1 \in Dists, d2 \in Dists}
Init == /\ p \in {q \in Ps : WellFormed(q)} /\ x = -10
Next == x < 70 /\ x' = x + 1 /\ UNCHANGED p
Mid(iv) == (iv[1] + iv[2]) \div 2
\* width of the bracket stays small, neighbours stay close (continuity), one period further the TCT repeats
Bracket == LET iv == HeightIv(p, 3, x) IN iv[1] <= iv[2] /\ iv[2] - iv[1] <= Q
Continuous == Abs(Mid(HeightIv(p, 3, x)) - Mid(HeightIv(p, 3, x + 1))) <= 2 * Q + 12
Periodic == Abs(Mid(HeightIv(p, 0, x + Period(p))) - Mid(HeightIv(p, 0, x)) - Q * Rise(p)) <= 2
Meets == \A i \in 0..4 : Right(p, i)[1] <= Left(p, i + 1)[1] /\ OnLead(p, i, 0, 2) = OnRounding(p, i, 2, 2) /\ OnLead(p, i, 2, 2) = OnRounding(p, i + 1, 0, 2)
\* limiting the peaks leaves the TCT between its first and its last corner unchanged
Overlap(u, v) == u[1] <= v[2] /\ v[1] <= u[2]
Limited == p.x0 <= x /\ x <= Right(p, Last(3))[1] => Overlap(HeightIv(p, 3, x), HeightIv(p, 0, x))
\* the exact points lie in the bracket of their abscissa
Exact == \A i \in 0..3 : \A k \in 0..4 : LET e == OnRounding(p, i, k, 4) IN
           e[1] % 16 = 0 => LET iv == HeightIv(p, 0, e[1] \div 16) IN 4 * e[2] >= iv[1] /\ 4 * e[2] <= iv[2]
\* a peak is concave, a valley convex: the rounding stays on the inner side of its corner
Inside == \A i \in 0..3 : LET c == Corner(p, i) iv == HeightIv(p, 0, c[1]) IN
           IF i % 2 = 0 THEN iv[1] <= Q * c[2] ELSE iv[2] >= Q * c[2]
\* sides agree with a vertical move
SideMono == \A y \in {-40, 0, 40, 80} : Side(p, 3, x, y, 0) <= Side(p, 3, x, y + 20, 0)
==============================================================================
