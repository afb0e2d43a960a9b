----------------------------- MODULE JumpsTrace -----------------------------
(* Validates the recorded calls of dot jump objects.                        *)
EXTENDS Jumps, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = Start /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done
        /\ bad' = Fails(s, Cases[t][l])
        /\ s' = After(s, Cases[t][l])
        /\ l' = l + 1 /\ UNCHANGED t
NextTrace == /\ Done /\ t + Stride <= N
             /\ t' = t + Stride /\ l' = 1 /\ s' = Start /\ bad' = {}
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
