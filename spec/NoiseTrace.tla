------------------------------ MODULE NoiseTrace ------------------------------
(* Validates recorded calls of white and pink noise (C11). Events:                                                      *)
(*  call: zero (sigma is 0), q: noise, twin: noise of an equally seeded object with another sigma and other data, same  *)
(*        (data left alone), draws, sampled, latest (sampled value reported), err                                       *)
(*  stat: kind, fmin (1/10000), lags (further lags without correlation: line length, length of a call), q: one long record (white) or rs: records (pink)                          *)
EXTENDS Noise, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
ISqrt(x) == CHOOSE r \in 0..46340 : r * r <= x /\ (r + 1) * (r + 1) > x
CallFails(e) ==
  IF e.err # "" THEN {"raised an exception"}
  ELSE (IF e.same THEN {} ELSE {"the supplied data was modified"})
       \union (IF Len(e.q) = e.pixels THEN {} ELSE {"shape"})
       \union (IF e.zero /\ \E i \in 1..Len(e.q) : e.q[i] # 0 THEN {"noise without strength"} ELSE {})
       \union (IF ~e.zero /\ e.pixels > 3 /\ \A i \in 1..Len(e.q) : e.q[i] = 0 THEN {"no noise"} ELSE {})
       \union (IF Len(e.twin) # Len(e.q) \/ \E i \in 1..Len(e.q) : Abs(e.q[i] - e.twin[i]) > 1
               THEN {"noise depends on the data or is not proportional to its strength"} ELSE {})
       \union (IF ~e.sampled \/ e.draws = 1 THEN {} ELSE {"strength not drawn once per call"})
       \union (IF e.latest THEN {} ELSE {"latest sigma"})
Lagged(q, k) == FoldLeft(LAMBDA a, i : a + (q[i] * q[i + k]) \div 10, 0, [i \in 1..(Len(q) - k) |-> i])
Outlier(q) == \E i \in 1..Len(q) : Abs(q[i]) > 800
\* 7 sigma bounds
WhiteFails(e) ==
  LET q == e.q  n == Len(q)  rt == ISqrt(n) IN
  IF Outlier(q) THEN {"noise stronger than configured"}
  ELSE (IF Abs(Sum(q)) <= 700 * (rt + 1) THEN {} ELSE {"mean of the noise"})
       \union (LET v == FoldLeft(LAMBDA a, x : a + (x * x) \div 100, 0, q) \div n IN IF Abs(v - 100) <= 1000 \div rt + 2 THEN {} ELSE {"strength of the noise"})
       \union UNION {IF Abs(Lagged(q, k)) <= 7000 * (rt + 1) THEN {} ELSE {"white noise is correlated"} : k \in {1, 2} \union {e.lags[i] : i \in 1..Len(e.lags)}}
       \union (LET inner == FoldLeft(LAMBDA a, x : a + (IF Abs(x) < 100 THEN 1 ELSE 0), 0, q) IN
               IF Abs(inner * 1000 - 681 * n) <= 3300 * rt + 8 * n THEN {} ELSE {"noise is not normal"})
PinkFails(e) ==
  IF \E i \in 1..Len(e.rs) : Outlier(e.rs[i]) THEN {"noise stronger than configured"}
  ELSE LET n == Len(e.rs[1])
           var == FoldLeft(LAMBDA a, q : a + FoldLeft(LAMBDA b, x : b + (x * x) \div 10, 0, q) \div n, 0, e.rs) \div Len(e.rs)
           l1 == Level(e.rs, 1)  l4 == Level(e.rs, 4)  l16 == Level(e.rs, 16)  l64 == Level(e.rs, 64)
           mean == Abs(FoldLeft(LAMBDA a, q : a + Sum(q) \div n, 0, e.rs)) \div Len(e.rs)
           In(a, b, lo, hi) == a * 100 >= b * lo /\ a * 100 <= b * hi
       IN (IF \A i \in 1..(Len(e.rs) - 1) : e.rs[i] # e.rs[i + 1] THEN {} ELSE {"the same noise in every call"})
          \union (IF var >= 800 /\ var <= 1400 THEN {} ELSE {"strength of the noise"})
          \union (IF mean <= 40 THEN {} ELSE {"mean of the noise"})
          \union (IF e.fmin = 0 THEN (IF In(l4, l1, 70, 105) /\ In(l16, l4, 75, 125) /\ In(l64, l16, 65, 145) THEN {} ELSE {"spectrum is not 1/f"})
                  ELSE IF e.fmin = 625 THEN (IF In(l4, l1, 65, 90) /\ In(l16, l4, 26, 48) /\ In(l64, l16, 18, 40) THEN {} ELSE {"spectrum does not level off below the minimal frequency"})
                  ELSE IF In(l4, l1, 20, 30) /\ In(l16, l4, 18, 34) THEN {} ELSE {"pink noise with the highest minimal frequency is not white"})
Fails(e) == IF e.ev = "call" THEN CallFails(e) ELSE IF e.kind = "white" THEN WhiteFails(e) ELSE PinkFails(e)
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = 0 /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done /\ bad' = Fails(Cases[t][l]) /\ l' = l + 1 /\ UNCHANGED <<t, s>>
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {} /\ UNCHANGED s
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
