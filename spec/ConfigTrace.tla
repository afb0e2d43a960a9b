----------------------------- MODULE ConfigTrace -----------------------------
(* Decides sampled configurations and laws about many of them (C20).                                                    *)
EXTENDS Config, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, done, bad
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ done = FALSE /\ bad = {}
Decide == /\ ~ done /\ done' = TRUE /\ t' = t
          /\ bad' = IF Cases[t].what = "config" THEN ConfigFails(Cases[t]) ELSE ManyFails(Cases[t])
NextTrace == /\ done /\ t + Stride <= N /\ t' = t + Stride /\ done' = FALSE /\ bad' = {}
Next == Decide \/ NextTrace
Report == done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
