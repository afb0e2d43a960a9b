------------------------------- MODULE Freeze -------------------------------
(* The contract of an occupation distortion: a measurement draws its noise  *)
(* (parameters of samplers and random numbers), frozen calls for additional *)
(* data replay exactly this noise and draw nothing.                         *)
(* s = [win, inp: window and data of the last measurement, ran: BOOLEAN,    *)
(*      draws: number of samples taken from each sampler so far]            *)
(* Composition: several dot jumps along different gates act independently,  *)
(* although the later ones ask for data which the earlier ones have to      *)
(* distort (see Jumps for k).                                               *)
EXTENDS Jumps

FStart == [win |-> <<>>, inp |-> 0, ran |-> FALSE, draws |-> 0]
FFails(s, e) ==
    CASE e.ev = "measure" ->
           Clause(e.draws = s.draws + (IF e.act /\ e.sampled THEN 1 ELSE 0) \/ (~e.act /\ e.draws \in {s.draws, s.draws + 1}),
                  "a measurement has to draw each parameter once")
      [] e.ev = "frozen" ->
           Clause(e.still, "frozen call changes the state of a random number generator")
           \cup Clause(e.draws = s.draws, "frozen call draws a new parameter")
           \cup Clause(s.ran /\ e.win = s.win /\ e.inp = s.inp => e.same, "frozen call on the measured data gives another result than the measurement")
           \cup Clause(e.act = e.actbefore, "frozen call changes whether the distortion is active")
      [] e.ev = "compose" ->
           UNION {Clause(\A i \in DOMAIN k : \A j \in DOMAIN k[i] : Abs(k[i][j]) # Bad /\ k[i][j] >= 0,
                         "data that stems from no pixel of its line (jumps along both gates do not compose)")
                  \cup Clause(SameInAllLines(k), "jumps along one gate differ between lines shifted along the other gate")
                  \cup Clause(BlockLaw(k[1]), "shifted and unshifted blocks do not alternate")
                    : k \in {e.ks[n] : n \in DOMAIN e.ks}}
           \cup UNION {Clause(e.active[n] \/ \A j \in DOMAIN e.ks[n][1] : e.ks[n][1][j] = 0, "jumps of an inactive distortion") : n \in DOMAIN e.ks}
           \cup Clause(e.lead, "lead transitions and occupations stem from different pixels")
      [] OTHER -> {"unknown event"}
FAfter(s, e) == IF e.ev = "measure" THEN [win |-> e.win, inp |-> e.inp, ran |-> TRUE, draws |-> e.draws] ELSE s
=============================================================================
