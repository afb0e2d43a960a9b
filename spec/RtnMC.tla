------------------------------- MODULE RtnMC -------------------------------
(* The process itself: blocks are drawn one after the other until all pixels are covered. Checked: every noise it      *)
(* produces satisfies RunsOK, and every sequence over the levels that satisfies RunsOK is produced (the judgement of    *)
(* the recorded noise is neither too strict nor too lax).                                                               *)
EXTENDS Rtn, FiniteSets, TLC
CONSTANTS Pixels, Heights
VARIABLES noise, burst
Rep(v, n) == [i \in 1..n |-> v]
Init == noise = <<>> /\ burst = FALSE
Next == /\ Len(noise) < Pixels
        /\ \E n \in 1..(Pixels - Len(noise)) : \E h \in (IF burst THEN Heights ELSE {0}) : noise' = noise \o Rep(h, n)
        /\ burst' = ~burst
RECURSIVE Encode(_, _)
Encode(s, r) == IF s = <<>> THEN r
  ELSE IF r # <<>> /\ r[Len(r)][1] = Head(s) THEN Encode(Tail(s), [r EXCEPT ![Len(r)][2] = @ + 1])
  ELSE Encode(Tail(s), Append(r, <<Head(s), 1>>))
Sound == Len(noise) = Pixels => RunsOK(Encode(noise, <<>>), Pixels) /\ SumLen(Encode(noise, <<>>)) = Pixels
\* number of sequences the judgement accepts = number of sequences the process produces (compared in the post condition)
Accepted == {s \in [1..Pixels -> Heights \union {0}] : RunsOK(Encode(s, <<>>), Pixels)}
Complete == Len(noise) = 0 => \A s \in Accepted :
   LET r == Encode(s, <<>>) IN \A i \in 1..Len(r) : (i % 2 = 1) = (r[i][1] = 0)
=============================================================================
