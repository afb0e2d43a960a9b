------------------------------- MODULE NoiseMC -------------------------------
(* Over all sequences of N signs (a white process): the total of the squared differences of block averages is that of   *)
(* independent values, i.e. 2/m per pair; a constant has none, and adding a constant changes nothing.                    *)
EXTENDS Noise, FiniteSets, TLC
CONSTANTS N
VARIABLES q, total
\* the process generates signs; totals over all sequences are checked in one go at the first state
Init == q = <<>> /\ total = 0
Next == Len(q) < N /\ \E v \in {-60, 60} : q' = Append(q, v) /\ UNCHANGED total
Invariance == \A m \in {1, 2} : Len(q) >= 2 * m =>
   /\ Allan(q, m, 1) = Allan([i \in 1..Len(q) |-> q[i] + 60], m, 1)
   /\ Allan([i \in 1..Len(q) |-> 7], m, 1) = 0
   /\ Allan([i \in 1..Len(q) |-> -q[i]], m, 1) = Allan(q, m, 1)
All == [1..N -> {-60, 60}]
RECURSIVE TotalOf(_, _)
TotalOf(S, m) == IF S = {} THEN 0 ELSE LET f == CHOOSE x \in S : TRUE IN Allan(f, m, 1) + TotalOf(S \ {f}, m)
WhiteLaw == q = <<>> => \A m \in {1, 2, 4} : N >= 2 * m =>
   TotalOf(All, m) * m = 2 * 3600 * Cardinality(All) * (N \div (2 * m))
=============================================================================
