--------------------------- MODULE PipelineTrace ---------------------------
(* Validates recorded measurements (first entry: the context).              *)
EXTENDS Pipeline, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
vars == <<t, l, s, bad>>
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N)
        /\ l = 2 /\ s = Start(Cases[t][1]) /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done
        /\ LET e == Cases[t][l] IN
             LET f == Fails(s, e) IN
               /\ bad' = f
               /\ s' = IF f = {} THEN After(s, e) ELSE s
        /\ l' = l + 1 /\ UNCHANGED t
NextTrace == /\ Done /\ t + Stride <= N
             /\ t' = t + Stride /\ l' = 2 /\ s' = Start(Cases[t + Stride][1]) /\ bad' = {}
Next == Step \/ NextTrace
Verdict == IF bad # {} THEN bad ELSE IF s.over THEN {} ELSE {"measurement has no end"}
Report == Done => PrintT(<<"VERDICT", t, Verdict>>)
=============================================================================
