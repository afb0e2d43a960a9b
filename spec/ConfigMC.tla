------------------------------ MODULE ConfigMC ------------------------------
(* The three constructions of the sampler, as state machines:                                                           *)
(*  - peaks are placed one after the other, at places of at least the minimal distance: there is always a place left,    *)
(*    whatever the choices made before (with the distance range/(1.5 n) that is tried first there is not always one)     *)
(*  - transitions are added until the whole window is covered: this ends, and not before the window is covered           *)
(*  - the chain of peaks of a sensor scan increases strictly, whatever relative distances are drawn                      *)
EXTENDS Config, FiniteSets
CONSTANTS Factor2,  \* twice the divisor of the minimal distance range / (divisor * n): 4, or 3 for the one tried first
          R         \* the range in steps of the grid
VARIABLES phase, n, placed, tcts, chain
vars == <<phase, n, placed, tcts, chain>>
\* the places at least the minimal distance away; on the grid >= stands for > (in the continuum the difference has no measure)
Free == {x \in 0..R : \A y \in placed : Factor2 * n * Abs(x - y) >= 2 * R}
Reach == {1, 2, 3}
WindowEnd == 7
Init == /\ phase = "peaks" /\ n \in 3..6 /\ placed = {} /\ tcts = <<0>> /\ chain = <<0>>
Place == /\ phase = "peaks" /\ Cardinality(placed) < n
         /\ \E x \in Free : placed' = placed \cup {x}
         /\ UNCHANGED <<phase, n, tcts, chain>>
PeaksDone == /\ phase = "peaks" /\ Cardinality(placed) = n
             /\ phase' = "tcts" /\ placed' = {} /\ UNCHANGED <<n, tcts, chain>>
\* a transition covers up to its place + 1; the shift is positive in the direction of more electrons
Covered == tcts[Len(tcts)] + 1 >= WindowEnd
Add == /\ phase = "tcts" /\ ~ Covered
       /\ \E s \in IF Len(tcts) = 1 THEN Reach ELSE {tcts[2] - tcts[1]} : tcts' = Append(tcts, tcts[Len(tcts)] + s)
       /\ UNCHANGED <<phase, n, placed, chain>>
TctsDone == /\ phase = "tcts" /\ Covered /\ phase' = "chain" /\ UNCHANGED <<n, placed, tcts, chain>>
Grow == /\ phase = "chain" /\ Len(chain) < 30 /\ n = 3 /\ Len(tcts) <= 3
        /\ \E e \in {-47550, 0, 47550} :
             chain' = IF Len(chain) < 4 THEN Append(chain, chain[Len(chain)] + RelMean(Len(chain)) + e)
                      \* later only the extremes of the position matter: one deviation for the rest
                      ELSE Append(chain, chain[Len(chain)] + RelMean(Len(chain)) - 47550)
        /\ UNCHANGED <<phase, n, placed, tcts>>
Next == Place \/ PeaksDone \/ Add \/ TctsDone \/ Grow
\* never stuck while peaks are missing
NotStuck == phase = "peaks" /\ Cardinality(placed) < n => Free # {}
\* the transitions cover the window once the loop is left, and the last one was needed
CoverLaw == phase = "chain" => /\ Covered
                               /\ Len(tcts) > 1 => tcts[Len(tcts) - 1] + 1 < WindowEnd
                               /\ Len(tcts) <= WindowEnd
ChainLaw == \A k \in 2..Len(chain) : chain[k] > chain[k - 1]
\* the interval of the relative distance is positive for all numbers of peaks
RelLaw == \A k \in 1..30 : RelMean(k) - 47560 > 0
\* quality: a smaller multiplier restricts the range of the dot lever arms, and never beyond its lower end
QualityLaw == \A q \in {1, 10, 37, 100, 250, 500, 999, 1000} :
                /\ DotMax(q, -799400, -96100) <= DotMax(1000, -799400, -96100)
                /\ DotMax(q, -799400, -96100) >= -799400
                /\ ExpMean(q) <= ExpMean(1000)
=============================================================================
