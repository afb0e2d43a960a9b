------------------------------- MODULE Jumps -------------------------------
(* Dot jumps (OccupationDotJumps) as a state machine. A distortion object   *)
(* remembers the jumps (shift per pixel along the jump gate, ordered from   *)
(* low to high voltage) that were drawn for the running measurement.        *)
(*                                                                          *)
(* A call returns, for every pixel, the data of the pixel that lies k[i][j] *)
(* pixels lower along the jump gate (i: other axis, j: jump axis).          *)
(*   s = [noise: shifts of the last measurement, act, fixed, drawn: BOOLEAN]*)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bad == 2000000000
Clause(ok, name) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x

(* Blocks without and with a shift alternate; the block at the lowest       *)
(* voltage has none. Blocks of zero shift may hide in between.              *)
BlockLaw(n) == /\ Len(n) > 0 => n[1] = 0
               /\ \A j \in 1..(Len(n) - 1) : n[j] # n[j + 1] => n[j] = 0 \/ n[j + 1] = 0

Cols(e) == 1..Len(e.k[1])
SameInAllLines(m) == \A i \in DOMAIN m : m[i] = m[1]
Zero(n) == [j \in 1..n |-> 0]

(* clipping at the border of the image if no other data can be generated    *)
Visible(j, k, gen) == IF gen \/ k < j THEN k ELSE j - 1

(* parameters are given in volt: pixels = volt * N / range                  *)
ProbOk(e) == \A q \in DOMAIN e.p : LET num == e.range * 10000 IN
                IF e.scale * Len(e.k[1]) <= e.range THEN Abs(e.p[q] - 10000) <= 1
                ELSE Abs(e.p[q] * (e.scale * Len(e.k[1])) - num) <= 2 * e.scale * Len(e.k[1])
LamOk(e) == \A q \in DOMAIN e.lamq : Abs(e.lamq[q] * e.range - e.lam * Len(e.k[1]) * 1000) <= 2 * e.range

Data(e) ==
    Clause(\A i \in DOMAIN e.k : \A j \in Cols(e) : Abs(e.k[i][j]) # Bad, "data that does not belong to any pixel of the swept line or of the other gate")
    \cup Clause(\A i \in DOMAIN e.k : \A j \in Cols(e) : e.k[i][j] >= 0, "jump towards higher voltages")
    \cup Clause(SameInAllLines(e.k), "jumps differ between the lines of the image")
    \cup Clause(e.lead = <<>> \/ e.lead = e.k, "lead transitions and occupations jump differently")

MeasureFails(s, e) ==
    IF ~e.act \/ e.fixed
    THEN Clause(\A i \in DOMAIN e.k : e.k[i] = Zero(Len(e.k[i])), "jumps although the distortion is not active")
         \cup Clause(e.lead = <<>> \/ e.lead = e.k, "lead transitions jump although the distortion is not active")
         \cup Clause(e.fixed => ~e.act, "active although the jump gate is not swept")
         \cup Clause(e.ratio = 1 => e.fixed, "ratio 1 but not active")
         \cup Clause(e.p = <<>>, "jumps drawn although the distortion is not active")
    ELSE Data(e) \cup Clause(e.ratio # 0, "ratio 0 but active")
         \cup Clause(e.gen => BlockLaw(e.k[1]), "shifted and unshifted blocks do not alternate")
         \cup Clause(ProbOk(e), "length of the blocks not scaled to the pixels of the jump gate")
         \cup Clause(LamOk(e), "height of the jumps not scaled to the pixels of the jump gate")
         \cup Clause(e.p # <<>>, "no block lengths drawn")
Measure(s, e) == [noise |-> e.k[1], act |-> e.act /\ ~e.fixed, gen |-> e.gen]

FrozenFails(s, e) ==
    Clause(e.p = <<>> /\ e.lamq = <<>> /\ e.still, "frozen call draws random numbers")
    \cup (IF ~s.act
          THEN Clause(\A i \in DOMAIN e.k : e.k[i] = Zero(Len(e.k[i])), "frozen call jumps although the measurement did not")
          ELSE Data(e) \cup Clause(~s.gen \/ Len(e.k[1]) # Len(s.noise) \/ e.k[1] = [j \in Cols(e) |-> Visible(j, s.noise[j], e.gen)],
                                   "frozen call does not repeat the jumps of the measurement"))

Start == [noise |-> <<>>, act |-> FALSE, gen |-> TRUE]
Fails(s, e) == IF e.ev = "measure" THEN MeasureFails(s, e) ELSE FrozenFails(s, e)
After(s, e) == IF e.ev = "measure" THEN Measure(s, e) ELSE s
=============================================================================
