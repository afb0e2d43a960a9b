------------------------------- MODULE FieldMC -------------------------------
(* All pairs of small scans of a field that is different at every point: scans of the field agree; a second scan that     *)
(* uses the grid of the first one (stale), exchanges rows and columns (turned), ignores the direction (sorted) or          *)
(* exchanges the gates that are not swept (swapped) does not always.                                                       *)
EXTENDS Field
CONSTANTS Fault, G, Crossed
VARIABLES d, e
F(x, y, u, v) == 100 * x + y * y + 1000 * u + 5000 * v
Shapes == {<<0, 1>>, <<0, 2>>, <<0, 3>>, <<2, 2>>} \cup (IF Crossed THEN {} ELSE {<<2, 3>>, <<3, 2>>})
Steps == IF Crossed THEN {-1, 0, 2} ELSE {-1, 0, 1, 2}
Scan(kind, f, sh, a1, m1, a2, m2) ==
  [kind |-> kind, f1 |-> f[1], f2 |-> f[2], rows |-> sh[1], cols |-> sh[2], a1 |-> a1, m1 |-> m1, a2 |-> a2, m2 |-> m2, tol |-> <<0, 0, 0>>]
Sound(s) == s.rows = 0 \/ (s.m1 # 0 /\ s.m2 # 0)
Scans(kind, fs) == {s \in {Scan(kind, f, sh, a1, m1, a2, m2) : f \in fs, sh \in Shapes, a1 \in G, m1 \in Steps, a2 \in G, m2 \in Steps} : Sound(s)}
ValueAt(s, g, k) == IF s.kind = 1 THEN F(At1(g, k), At2(g, k), g.f1, g.f2) ELSE F(g.f1, g.f2, At1(g, k), At2(g, k))
WithValues(s, g) == [kind |-> s.kind, f1 |-> s.f1, f2 |-> s.f2, rows |-> s.rows, cols |-> s.cols, a1 |-> s.a1, m1 |-> s.m1, a2 |-> s.a2, m2 |-> s.m2, tol |-> s.tol,
                     soft |-> [k \in 1..Pixels(s) |-> FALSE], val |-> [k \in 1..Pixels(s) |-> <<ValueAt(s, g, k), 0, 0>>]]
Sort(s) == IF s.m1 >= 0 THEN s ELSE [s EXCEPT !.a1 = @ + s.m1 * (s.cols - 1), !.m1 = -@]
Grid(s, first) == CASE Fault = "none" -> s
                    [] Fault = "stale" -> (IF s.rows = first.rows /\ s.cols = first.cols /\ s.a1 = first.a1 /\ s.a2 = first.a2 THEN first ELSE s)
                    [] Fault = "sorted" -> Sort(s)
                    [] Fault = "turned" -> (IF s.rows = s.cols THEN [s EXCEPT !.a1 = s.a2, !.a2 = s.a1, !.m1 = s.m2, !.m2 = s.m1] ELSE s)
                    [] Fault = "swapped" -> [s EXCEPT !.f1 = s.f2, !.f2 = s.f1]
Init == IF Crossed THEN \E p \in Scans(1, G \X G) : \E q \in Scans(2, G \X G) : d = WithValues(p, p) /\ e = WithValues(q, Grid(q, p))
        ELSE \E p \in Scans(1, {<<0, 0>>}) : \E q \in Scans(1, {<<0, 0>>, <<1, 0>>}) : d = WithValues(p, p) /\ e = WithValues(q, Grid(q, p))
Next == UNCHANGED <<d, e>>
Law == Agree(d, e)
\* the comparison sees every common point of the two scans
Points(s) == {<<At1(s, k), At2(s, k), k>> : k \in 1..Pixels(s)}
Complete == IF d.kind = e.kind
            THEN Compared(d, e) = {k \in 1..Pixels(e) : \E j \in 1..Pixels(d) : At1(d, j) = At1(e, k) /\ At2(d, j) = At2(e, k)}
            ELSE LET x == Crossing(d, e) IN
                 /\ (x[1] > 0) = (\E j \in 1..Pixels(d) : At1(d, j) = e.f1 /\ At2(d, j) = e.f2)
                 /\ (x[2] > 0) = (\E k \in 1..Pixels(e) : At1(e, k) = d.f1 /\ At2(e, k) = d.f2)
=============================================================================
