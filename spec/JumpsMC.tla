------------------------------ MODULE JumpsMC ------------------------------
(* How jumps come into being: block lengths and heights are drawn, the      *)
(* data below the swept range is generated and put in front of the image,   *)
(* the pixels are moved one after the other (every pixel of a block drags   *)
(* the ones behind it along and is overwritten by its successors), the      *)
(* front is cut off. TLC shows for all draws that the outcome is the shift  *)
(* described in Jumps, that it obeys the block law and that a frozen        *)
(* repetition of it is recognised as one (and a different one is not).      *)
EXTENDS Jumps
CONSTANTS Size, MaxJump
VARIABLES noise, bi, j, k, img, out, phase
vars == <<noise, bi, j, k, img, out, phase>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Added == Max({noise[q] : q \in DOMAIN noise} \cup {0})
Init == /\ noise = <<>> /\ bi = 0 /\ j = 0 /\ k = 0 /\ img = <<>> /\ out = <<>> /\ phase = "draw"
Draw == /\ phase = "draw" /\ Len(noise) < Size
        /\ \E w \in 1..Size, h \in 0..MaxJump :
             LET n == noise \o [q \in 1..w |-> bi * h] IN noise' = SubSeq(n, 1, IF Len(n) > Size THEN Size ELSE Len(n))
        /\ bi' = 1 - bi /\ UNCHANGED <<j, k, img, out, phase>>
(* pixels are named by their distance to the start of the sweep: 0..Size-1, the generated ones -Added..-1 *)
Stack == /\ phase = "draw" /\ Len(noise) = Size
         /\ img' = [q \in 1..(Added + Size) |-> q - 1 - Added]
         /\ out' = [q \in 1..(Added + Size) |-> 0]
         /\ phase' = "move" /\ j' = 1 /\ k' = 0 /\ UNCHANGED <<noise, bi>>
N2 == Zero(Added) \o noise
Move == /\ phase = "move" /\ j <= Len(img)
        /\ IF k <= N2[j] /\ j + k <= Len(img)
           THEN /\ out' = [out EXCEPT ![j + k] = img[IF j - N2[j] + k < 1 THEN 1 ELSE j - N2[j] + k]]
                /\ k' = k + 1 /\ j' = j
           ELSE k' = 0 /\ j' = j + 1 /\ out' = out
        /\ UNCHANGED <<noise, bi, img, phase>>
Cut == /\ phase = "move" /\ j > Len(img)
       /\ out' = SubSeq(out, Added + 1, Len(out)) /\ phase' = "done" /\ UNCHANGED <<noise, bi, j, k, img>>
Next == Draw \/ Stack \/ Move \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Shift == [q \in 1..Size |-> (q - 1) - out[q]]
Event(n) == [ev |-> "frozen", k |-> <<n>>, lead |-> <<n>>, p |-> <<>>, lamq |-> <<>>, still |-> TRUE, gen |-> TRUE]
MovesByNoise == phase = "done" => Shift = noise
ObeysLaw == phase = "done" => BlockLaw(Shift)
NothingLost == phase = "done" => \A q \in 1..Size : out[q] \in (-Added)..(Size - 1)
FrozenRecognised == phase = "done" => FrozenFails([noise |-> noise, act |-> TRUE, gen |-> TRUE], Event(Shift)) = {}
OthersRefused == phase = "done" /\ Added > 0 =>
                    FrozenFails([noise |-> noise, act |-> TRUE, gen |-> TRUE], Event([Shift EXCEPT ![Size] = @ + 1])) # {}
Ends == <>(phase = "done")
=============================================================================
