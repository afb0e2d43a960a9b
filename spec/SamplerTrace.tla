----------------------------- MODULE SamplerTrace -----------------------------
(* Validates recorded samplers (C13). case: kind, lo, hi (ends of the total range, lo <= hi), w (width or -1), all in   *)
(*  one unit; ev: sequence of [x, last, first: what last_sample() said before, x, after], twin: samples of an equally    *)
(*  seeded sampler, n; z, counts: bins (only if the interval is known), dist; wide: 1: the samples have to fill the      *)
(*  interval; err. Or [centres: sequence of samples of very narrow samplers].                                            *)
EXTENDS Sampler, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
MinOf(q) == FoldLeft(LAMBDA a, x : Min2(a, x), q[1], q)
MaxOf(q) == FoldLeft(LAMBDA a, x : Max2(a, x), q[1], q)
Fails(c) ==
  IF c.err # "" THEN {"raised an exception"}
  ELSE LET x == c.x  w == Width(c.lo, c.hi, c.w) IN
       (IF \A i \in 1..Len(x) : x[i] >= c.lo - 1 /\ x[i] <= c.hi + 1 THEN {} ELSE {"sample outside of the total range"})
       \union (IF MaxOf(x) - MinOf(x) <= w + 2 THEN {} ELSE {"samples spread over more than the sampling range"})
       \union (IF c.wide = 1 /\ (MaxOf(x) - MinOf(x)) < w - w \div 15 - 3 THEN {"samples do not fill the sampling range"} ELSE {})
       \union (IF c.last THEN {} ELSE {"last sample"})
       \union (IF c.twin THEN {} ELSE {"equally seeded samplers differ"})
       \union (IF Len(c.z) = 0 \/ BinsOK(c.dist, c.z, c.counts) THEN {} ELSE {"distribution of the samples"})
       \union (IF c.out = 0 THEN {} ELSE {"sample outside of the total range"})
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = 0 /\ bad = {}
Done == l > 1
Step == /\ ~Done /\ bad' = Fails(Cases[t]) /\ l' = 2 /\ UNCHANGED <<t, s>>
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {} /\ UNCHANGED s
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
