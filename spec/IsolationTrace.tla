--------------------------- MODULE IsolationTrace ---------------------------
(* Validates histories of configuring, changing, measuring.                 *)
EXTENDS Isolation, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 2 /\ s = Cases[t][1] /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done
        /\ bad' = Fails(s, Cases[t][l])
        /\ s' = Apply(s, Cases[t][l])
        /\ l' = l + 1 /\ UNCHANGED t
NextTrace == /\ Done /\ t + Stride <= N
             /\ t' = t + Stride /\ l' = 2 /\ s' = Cases[t + Stride][1] /\ bad' = {}
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
