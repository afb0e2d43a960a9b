----------------------------- MODULE RetuneTrace -----------------------------
(* Validates recorded histories of retuned sensors, step by step (C22).                                                  *)
EXTENDS Retune, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, off, bad
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ off = Cases[t].offset /\ bad = {}
Done == l > Len(Cases[t].events) \/ bad # {}
Step == /\ ~ Done
        /\ LET c == Cases[t]  e == c.events[l] IN
             /\ bad' = Fails(c, off, e)
             /\ off' = Apply(c, off, e)
        /\ l' = l + 1 /\ t' = t
NextTrace == /\ Done /\ t + Stride <= N
             /\ t' = t + Stride /\ l' = 1 /\ off' = Cases[t + Stride].offset /\ bad' = {}
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
