------------------------------ MODULE SamplerMC ------------------------------
(* Building a sampler and drawing from it, on a grid: samples lie in the total range, all samples of one sampler lie     *)
(* within its width, every interval of that width inside of the total range is possible.                                *)
EXTENDS Sampler, FiniteSets, TLC
CONSTANTS Lo, Hi, Widths
Ws == {-1, 0, 3, 6, 7, 12}
VARIABLES w, from, drawn
vars == <<w, from, drawn>>
Init == /\ w \in Widths /\ from \in Lo..(Hi - Width(Lo, Hi, w)) /\ drawn = <<>>
Next == Len(drawn) < 3 /\ \E x \in from..(from + Width(Lo, Hi, w)) : drawn' = Append(drawn, x) /\ UNCHANGED <<w, from>>
Inside == \A i \in 1..Len(drawn) : drawn[i] >= Lo /\ drawn[i] <= Hi
Narrow == \A i, j \in 1..Len(drawn) : drawn[i] - drawn[j] <= Width(Lo, Hi, w)
Whole == w < 0 \/ w >= Hi - Lo => from = Lo
ASSUME Law == /\ BinsOK("uniform", <<0, 0, 0, 0>>, <<1000, 1010, 990, 1005>>) /\ ~BinsOK("uniform", <<0, 0, 0, 0>>, <<700, 1300, 1000, 1000>>)
              /\ BinsOK("exp", <<250, 750, 1250, 1750>>, <<456, 276, 168, 101>>) /\ ~BinsOK("exp", <<250, 750, 1250, 1750>>, <<101, 168, 276, 456>>)
              /\ BinsOK("normal", <<-1000, 0, 1000>>, <<607, 1000, 607>>) /\ ~BinsOK("normal", <<-1000, 0, 1000>>, <<9000, 10000, 9000>>)
=============================================================================
