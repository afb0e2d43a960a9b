------------------------------- MODULE PlotMC -------------------------------
(* For every sweep direction and choice of sorting, on small images: the value shown at a place was measured at the       *)
(* voltage the axis has there, sorted plots have ascending axes, and sorting the plot of a sweep and of the reversed      *)
(* sweep of the same diagram shows the same.                                                                              *)
EXTENDS Plot
VARIABLES c
\* the value measured at voltages (a, b)
Val(a, b) == 1000 * a + b
V(lim, i, n) == lim[1] + ((lim[2] - lim[1]) * (i - 1)) \div (n - 1)
Scan(l1, l2, n1, n2) == [r \in 1..n2 |-> [k \in 1..n1 |-> Val(V(l1, k, n1), V(l2, r, n2))]]
Limits == {<<0, 12>>, <<12, 0>>, <<-6, 0>>, <<-6, -18>>}
Init == \E l1, l2 \in Limits, n1, n2 \in 2..4, s \in BOOLEAN :
          c = [v1 |-> l1, v2 |-> l2, sort |-> s, csd |-> Scan(l1, l2, n1, n2), n1 |-> n1, n2 |-> n2]
Next == UNCHANGED c
PlaceLaw == LET s1 == Shown(c.v1, FlipX(c))  s2 == Shown(c.v2, FlipY(c)) IN
              \A r \in 1..c.n2, k \in 1..c.n1 : Image(c)[r][k] = Val(V(s1, k, c.n1), V(s2, r, c.n2))
SortLaw == c.sort => /\ Up(Shown(c.v1, FlipX(c))) /\ Up(Shown(c.v2, FlipY(c)))
                     /\ LET d == [c EXCEPT !.v1 = Rev(c.v1), !.csd = Scan(Rev(c.v1), c.v2, c.n1, c.n2)] IN Image(c) = Image(d)
UnsortedLaw == ~ c.sort => Image(c) = c.csd
=============================================================================
