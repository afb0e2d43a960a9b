----------------------------- MODULE FieldTrace -----------------------------
(* Decides histories of noise-free measurements (C24): every scan has to agree with all earlier ones of its history.     *)
EXTENDS Field, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, bad
Fails(h, i) ==
  LET e == h[i] IN
  IF e.err # "" THEN {"a measurement raised an exception"}
  ELSE IF Len(e.val) # Pixels(e) THEN {"number of pixels"}
  ELSE IF \A j \in 1..(i - 1) : Agree(h[j], e) THEN {} ELSE {"the same voltages have another value in another scan"}
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done /\ bad' = Fails(Cases[t], l) /\ l' = l + 1 /\ UNCHANGED t
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {}
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
