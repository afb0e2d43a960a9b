----------------------------- MODULE FreezeTrace -----------------------------
(* Validates the recorded calls of occupation distortions.                        *)
EXTENDS Freeze, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = FStart /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done
        /\ bad' = FFails(s, Cases[t][l])
        /\ s' = FAfter(s, Cases[t][l])
        /\ l' = l + 1 /\ UNCHANGED t
NextTrace == /\ Done /\ t + Stride <= N
             /\ t' = t + Stride /\ l' = 1 /\ s' = FStart /\ bad' = {}
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
