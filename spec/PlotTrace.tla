----------------------------- MODULE PlotTrace -----------------------------
(* Decides observed figures (C23).                                                                                         *)
EXTENDS Plot, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, done, bad
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ done = FALSE /\ bad = {}
Decide == /\ ~ done /\ done' = TRUE /\ t' = t
          /\ bad' = Fails(Cases[t])
NextTrace == /\ done /\ t + Stride <= N /\ t' = t + Stride /\ done' = FALSE /\ bad' = {}
Next == Decide \/ NextTrace
Report == done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
