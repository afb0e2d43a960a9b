----------------------------- MODULE GeoTrace -----------------------------
(* Decides recorded calls of the helper functions (C21).                                                                   *)
EXTENDS Geo, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, done, bad
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ done = FALSE /\ bad = {}
Decide == /\ ~ done /\ done' = TRUE /\ t' = t
          /\ bad' = FailsAll(Cases[t])
NextTrace == /\ done /\ t + Stride <= N /\ t' = t + Stride /\ done' = FALSE /\ bad' = {}
Next == Decide \/ NextTrace
Report == done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
