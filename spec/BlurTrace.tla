------------------------------ MODULE BlurTrace ------------------------------
(* Validates recorded calls of the blurring distortions (C12). s = sigma of the last measurement.                      *)
(* event: kind, rows (0: 1D), cols, range1, range2, frozen, sigma, inp/out: lines (values; values times 1000),          *)
(*        lead, draws, sampled (a sampler is configured), latest, err, only: pixels of long lines that are looked at   *)
(*        (empty: all of them)                                                                                         *)
EXTENDS Blur, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
Amp(q) == LET S == {Abs(q[i]) : i \in 1..Len(q)} IN CHOOSE x \in S : \A y \in S : y <= x
LineFails(e, i, sig) ==
  LET P == IF e.only = <<>> THEN 1..Len(e.inp[i]) ELSE {e.only[j] : j \in 1..Len(e.only)}
      want == BlurredAt(e.kind, e.inp[i], sig, P)
      tol == IF sig = 0 THEN 0 ELSE 3 * Amp(e.inp[i]) + 2
  IN IF Len(e.out[i]) # Len(e.inp[i]) THEN {"shape"}
     ELSE IF \E j \in P : Abs(want[j] - e.out[i][j]) > tol
     THEN {IF sig = 0 THEN "data blurred without width or sweep" ELSE "line differs from its convolution with the kernel"} ELSE {}
Fails(e) ==
  LET sigma == IF e.frozen THEN s ELSE e.sigma  sig == BlurPx(e, sigma) IN
  IF e.err # "" THEN {"raised an exception"}
  ELSE (IF Len(e.out) # Len(e.inp) THEN {"shape"} ELSE UNION {LineFails(e, i, sig) : i \in 1..Len(e.inp)})
       \union (IF e.lead THEN {} ELSE {"lead transitions changed"})
       \union (IF e.sampled /\ e.draws # (IF e.frozen THEN 0 ELSE 1) THEN {"parameter not drawn once per measurement"} ELSE {})
       \union (IF e.latest = sigma THEN {} ELSE {"latest sigma"})
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = 0 /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done /\ bad' = Fails(Cases[t][l]) /\ l' = l + 1 /\ UNCHANGED t
        /\ s' = IF Cases[t][l].frozen THEN s ELSE Cases[t][l].sigma
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {} /\ s' = 0
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
