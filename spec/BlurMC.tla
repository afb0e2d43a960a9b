------------------------------- MODULE BlurMC -------------------------------
(* Laws of the blurring over all lines with up to N pixels and values 0..V: constant lines stay as they are, electrons  *)
(* are conserved, values stay between the smallest and the largest one, mirrored lines blur to mirrored lines, a larger *)
(* line is never below a smaller one, ascending lines stay ascending.                                                   *)
EXTENDS Blur, FiniteSets, TLC
CONSTANTS N, V, Sigs
VARIABLES kind, sig, line
Init == kind \in {"fermi", "gauss"} /\ sig \in Sigs /\ line = <<>>
Next == Len(line) < N /\ \E v \in 0..V : line' = Append(line, v) /\ UNCHANGED <<kind, sig>>
B == Blurred(kind, line, sig)
Idx == 1..Len(line)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
Vals == {line[i] : i \in Idx}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Laws == line # <<>> =>
  LET b == B IN
  /\ Abs(SumSeq(b) - 1000 * SumSeq(line)) <= 2 * Len(line)
  /\ \A i \in Idx : b[i] >= 1000 * Min(Vals) - 1 /\ b[i] <= 1000 * Max(Vals) + 1
  /\ LET r == Blurred(kind, Rev(line), sig) IN \A i \in Idx : Abs(r[i] - Rev(b)[i]) <= 1
  /\ (\A i, j \in Idx : i < j => line[i] <= line[j]) => \A i, j \in Idx : i < j => b[i] <= b[j] + 1
=============================================================================
