----------------------------- MODULE SensorTrace -----------------------------
(* Validates recorded histories of generic sensors (C14). The state s is the configuration of the sensor:               *)
(*   ad, ag lever arms, off offset, lin (no peak function: linear sensor), peaks.                                       *)
(* Events: build / set  (what: ad, ag, off, peaks, lin, value; ok: accepted; raised "": nothing),                       *)
(*         peak   (i, field, value, ok, raised): attribute of a peak the sensor hands out                               *)
(*         caller : objects handed over earlier are changed by their owner                                              *)
(*         pot    (rows 0: 1D, cols, v1, v2: <<first, step>>, occ; out, same)                                           *)
(*         resp   (mu; out, same)                                                                                       *)
EXTENDS Sensor, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
NoCfg == [ad |-> <<-100, -100>>, ag |-> <<0, 0>>, off |-> 0, lin |-> TRUE, peaks |-> <<>>]
SetPeak(p, f, x) == CASE f = "mu0" -> [p EXCEPT !.mu0 = x] [] f = "width" -> [p EXCEPT !.width = x]
                      [] f = "height" -> [p EXCEPT !.height = x] [] f = "offset" -> [p EXCEPT !.offset = x]
Apply(c, e) ==
  IF ~e.ok THEN c
  ELSE CASE e.what = "ad" -> [c EXCEPT !.ad = e.value] [] e.what = "ag" -> [c EXCEPT !.ag = e.value]
         [] e.what = "off" -> [c EXCEPT !.off = e.value]
         [] e.what = "peaks" -> [c EXCEPT !.peaks = e.value, !.lin = FALSE]
         [] e.what = "lin" -> [c EXCEPT !.peaks = <<>>, !.lin = TRUE]
         [] e.what = "peak" -> [c EXCEPT !.peaks = [@ EXCEPT ![e.i] = SetPeak(@, e.field, e.value)]]
After(c, e) == IF e.ev = "set" THEN Apply(c, e) ELSE c
SetFails(e) == IF e.ok THEN (IF e.raised = "" THEN {} ELSE {"an admissible configuration was refused"})
               ELSE IF e.raised = "ValueError" THEN {} ELSE {"an inadmissible configuration was not refused with a ValueError"}
PotFails(c, e) ==
  LET R(k) == IF e.rows = 0 THEN k ELSE k \div e.cols
      C(k) == IF e.rows = 0 THEN k ELSE k % e.cols
      want(k) == Potential(c.ad, c.ag, c.off, e.occ[k + 1], <<e.v1[1] + e.v1[2] * C(k), e.v2[1] + e.v2[2] * R(k)>>)
  IN IF e.err # "" THEN {"raised an exception"}
     ELSE IF Len(e.out) # Len(e.occ) THEN {"shape of the potential"}
     ELSE (IF \A k \in 0..(Len(e.occ) - 1) : Abs(e.out[k + 1] - want(k)) <= 2 THEN {} ELSE {"potential"})
          \union (IF e.same THEN {} ELSE {"arguments changed"})
RespFails(c, e) ==
  IF e.err # "" THEN {"raised an exception"}
  ELSE IF Len(e.out) # Len(e.mu) THEN {"shape of the response"}
  ELSE (IF c.lin THEN (IF \A k \in 1..Len(e.mu) : e.raw[k] = e.mu[k] THEN {} ELSE {"response of a linear sensor"})
        ELSE IF \A k \in 1..Len(e.mu) : Abs(e.out[k] - Response(e.mu[k], c.peaks)) <= Tolerance(c.peaks) THEN {} ELSE {"response"})
       \union (IF e.same THEN {} ELSE {"arguments changed"})
Fails(c, e) == CASE e.ev = "set" -> SetFails(e) [] e.ev = "caller" -> {} [] e.ev = "pot" -> PotFails(c, e) [] e.ev = "resp" -> RespFails(c, e)
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = NoCfg /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done /\ bad' = Fails(s, Cases[t][l]) /\ l' = l + 1 /\ s' = After(s, Cases[t][l]) /\ UNCHANGED t
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {} /\ s' = NoCfg
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
